"""The web world: a simulated site (real Django request handling and templates) over the simulated cache server."""
import contextlib
import hashlib
import io
import logging
import re
import sys

from . import bindings, engine, images, models, seams
from .core import Actor, AppError, AppExit, CoreWorld, INF, Rec, Violation, _tb
from .engine import HarnessError, SimKilled
from .server import SimBackendError

TOKEN = re.compile(r'\[\[([<>])(\d+)\]\]|\[\[n(\d+):(\w+):(\w+)\]\]')


def setup():
    st = dict(bindings.DJANGO_SETTINGS)
    images.EXTRA[:] = ['django_cache_dependencies.templatetags.cache_tagging_tags']
    images.setup_django(st)
    images.pool(3)
    import django.template.response  # noqa
    import django.views.defaults  # noqa
    import django.core.handlers.wsgi  # noqa
    import django.core.handlers.base  # noqa
    from django.core import signals
    from . import webmw, weburls  # noqa
    signals.got_request_exception.connect(_on_exception, weak=False)
    for name in ('django.request', 'django.template', 'django', 'django.security'):
        lg = logging.getLogger(name)
        lg.handlers[:] = []
        lg.propagate = False
        lg.setLevel(logging.WARNING)
        lg.addHandler(_Handler())
    from django.urls import get_resolver
    global BAD
    from django.template import TemplateSyntaxError
    BAD += (TemplateSyntaxError,)
    get_resolver('dst.weburls').resolve('/v0/')
    from django.utils.translation import get_language
    get_language()


# what the template tag may raise for arguments it can't use
BAD = (TypeError, ValueError)


def _note_exception(e):
    w = bindings.world()
    a = w.by_task.get(w.sim.current) if w is not None and w.sim.current is not None else None
    if a is not None and e is not None:
        a.note_exception(e)


def _on_exception(**kw):
    _note_exception(sys.exc_info()[1])


class _Handler(logging.Handler):
    def emit(self, record):
        if record.exc_info:
            _note_exception(record.exc_info[1])

    def createLock(self):
        self.lock = None


def generate(rng, spec):
    from .webgen import WebGen
    total = sum(w for w, _ in spec['profiles'])
    x = rng.random() * total
    for w, p in spec['profiles']:
        x -= w
        if x < 0:
            break
    return WebGen(rng, p).scenario()


def run(scenario, chooser, spec):
    w = WebWorld(scenario, chooser, scenario['rseed'])
    w.run()
    judge(w)
    return w


# -- templates ---------------------------------------------------------------------------------

def quote(tags):
    return ' '.join("'%s'" % t for t in tags)


def source(nodes):
    out = []
    for n in nodes:
        k = n[0]
        if k == 'frag':
            _, fid, naming, tags, tl, timeout, nocache, body = n[:8]
            opts = n[8] if len(n) > 8 else {}
            name = {'lit': "'%s'" % fid, 'q': "'%s_'|concat:q" % fid, 'loop': "'%s_'|concat:forloop.counter" % fid}[naming]
            args = [name] + (["'%s'" % t for t in tags])
            if tl:
                args.append('tags=' + tl)
            if timeout is not None:
                args.append('timeout=' + (opts.get('tv') or '%d') % timeout)
            if nocache:
                args.append('nocache=1')
            args += opts.get('more', ())
            out.append('{%% mark %s%s %s %%}{%% cache_tagging %s %%}{%% unit %s %s %%}' % (
                fid, '!' if nocache else '', naming, ' '.join(args), fid, '-' if timeout is None else timeout))
            if tags:
                out.append('{%% dst_dep %s %%}' % quote(tags))
            if tl:
                out.append('{%% dst_dep %s0 %%}' % tl)
            out.append(source(body))
            out.append('{% endunit %}{% end_cache_tagging %}{% endmark %}')
        elif k == 'add':
            t, t0 = (n[1], n[1] + '0') if isinstance(n[1], str) else (quote(n[1]),) * 2
            out.append('{%% cache_add_tags %s %%}{%% dst_dep %s %%}' % (t, t0))
        elif k == 'prevent':
            s = '{% cache_tagging_prevent %}{% dst_prevent %}'
            out.append(s if not n[1] else '{%% if %s %%}%s{%% endif %%}' % (n[1], s))
        elif k == 'value':
            out.append("{%% dst_value '%s' %d %s %%}" % (n[1], n[2], quote(n[3])))
        elif k == 'if':
            out.append('{%% if %s %%}%s{%% else %%}%s{%% endif %%}' % (n[1], source(n[2]), source(n[3])))
        elif k == 'for':
            out.append('{%% for i in r%d %%}%s{%% endfor %%}' % (n[1], source(n[2])))
        elif k == 'with':
            out.append('{%% with z=1 %%}%s{%% endwith %%}' % source(n[1]))
        elif k == 'filter':
            out.append('{%% filter force_escape|safe %%}%s{%% endfilter %%}' % source(n[1]))
        elif k == 'inc':
            out.append("{%% include 'T%d' %%}" % n[1])
        elif k == 'block':
            out.append('{%% block %s %%}%s{%% endblock %%}' % (n[1], source(n[2])))
        elif k == 'region':
            out.append(region(n[1], n[2]))
        elif k == 'fail':
            out.append('{% dst_fail %}')
        elif k == 'slow':
            out.append('{% dst_slow %}')
        elif k == 'text':
            out.append(n[1])
        else:
            raise HarnessError(k)
    return ''.join(out)


def region(i, form):
    if form == 'one':
        return '{%% nocache w=dyn %%}echo("[[n%d:", dyn, ":", w, "]]"){%% endnocache %%}' % i
    if form == 'lines':
        return ('{%% nocache w=dyn %%}\n      x = dyn\n      if x:\n          echo("[[n%d:", x)\n'
                '      echo(":", w, "]]")\n{%% endnocache %%}' % i)
    if form == 'nested':
        return ("{%% nocache w=dyn %%}echo(nocache.start(w2=dyn), 'echo(\"[[n%d:\", dyn, \":\", w2, \"]]\")', "
                "nocache.end()){%% endnocache %%}" % (1000 + i))
    raise HarnessError(form)


_template_cache = {}


def template_sources(sc):
    res = {}
    for i, t in enumerate(sc['templates']):
        s = ''
        if t.get('extends') is not None:
            s = "{%% extends 'T%d' %%}" % t['extends']
        s += '{% load cache_tagging_tags %}' + source(t['body'])
        res['T%d' % i] = s
    return res


def make_engine(img, sources):
    from django.template import Engine
    images.activate(img)
    e = Engine(
        loaders=[('django.template.loaders.cached.Loader', [('django.template.loaders.locmem.Loader', sources)])],
        context_processors=['django.template.context_processors.request'],
        libraries={'cache_tagging_tags': 'django_cache_dependencies.templatetags.cache_tagging_tags'},
        builtins=['django.template.defaulttags', 'django.template.defaultfilters', 'django.template.loader_tags',
                  'dst.webtags'])
    for name in sources:
        e.get_template(name)
    return e


# -- actors ------------------------------------------------------------------------------------

class Unit(object):
    """One rendering of a cacheable thing: a fragment, a value or a page."""

    def __init__(self, w, kind, name, frame, **kw):
        w.n_units += 1
        self.uid = w.n_units
        self.kind = kind
        self.name = name
        self.frame = frame
        self.start = w.sim.next_seq()
        self.t_start = w.sim.now
        self.deps = set()
        self.prevented = self.failed = self.done = False
        self.timeout = None
        self.dyn = None
        self.__dict__.update(kw)
        w.units[self.uid] = self
        frame.rendered.append(self)

    def stored(self):
        e = self.frame.rec.end
        return INF if e is None else e

    def __repr__(self):
        return '<%s %s #%d>' % (self.kind, self.name, self.uid)


class Frame(object):
    def __init__(self, actor, kind, name, dyn):
        self.kind, self.name, self.dyn = kind, name, dyn
        self.text = None
        self.start = None
        self.rec = actor.rec('frame', what=kind, name=name)
        self.start = self.rec.start
        self.t_start = self.rec.t_start
        self.info = {}
        self.key = None
        self.rendered = []


def parse(text):
    """-> list of (uid, set of uids inside), list of (region, dyn, w, innermost uid)"""
    tops, stack, regions = [], [], []
    for m in TOKEN.finditer(text):
        if m.group(1) == '<':
            uid = int(m.group(2))
            if not stack:
                tops.append((uid, {uid}))
            tops[-1][1].add(uid)
            stack.append(uid)
        elif m.group(1) == '>':
            if not stack or stack[-1] != int(m.group(2)):
                return None, None
            stack.pop()
        else:
            regions.append((int(m.group(3)), m.group(4), m.group(5), stack[-1] if stack else None))
    if stack:
        return None, None
    return tops, regions


def qualified(alias, tags):
    if alias in (None, 'default'):
        return set(str(t) for t in tags)
    return set('%s:%s' % (alias, t) for t in tags)


class WebActor(Actor):
    def __init__(self, *a, **kw):
        Actor.__init__(self, *a, **kw)
        self.frames = []
        self.units = []
        self.excs = []
        self.mode = {}

    @contextlib.contextmanager
    def frame(self, kind, name, dyn=None):
        f = Frame(self, kind, name, dyn)
        f.actor = self
        self.w.frames.append((f, self, f.rendered))
        self.frames.append(f)
        self.cur.append(f.rec)
        try:
            yield f
            f.rec.ok = True
        except SimKilled:
            f.rec.error = 'killed'
            raise
        except BaseException as e:
            f.rec.error = type(e).__name__
            raise
        finally:
            self.cur.remove(f.rec)
            self.frames.pop()
            if f.rec.error != 'killed':
                f.rec.close(self.w)
        if f.text is not None:
            self.w.observe(self, f)

    @contextlib.contextmanager
    def unit(self, kind, name, **kw):
        u = Unit(self.w, kind, name, self.frames[-1], **kw)
        self.units.append(u)
        try:
            yield u
            u.done = True
            if u.prevented and len(self.units) > 1:
                # takes effect on the ancestors only if the rendering got through
                self.units[-2].prevented = True
        except BaseException:
            u.failed = True
            raise
        finally:
            self.units.pop()
            u.end = self.w.sim.next_seq()

    def note_deps(self, tags, alias=None):
        if self.units:
            self.units[-1].deps.update(qualified(alias, tags))

    def note_prevent(self):
        self.units[-1].prevented = True

    def note_exception(self, e):
        if not any(e is x for x in self.excs):
            self.excs.append(e)

    def maybe_fail(self, context):
        how = self.mode.get('fail')
        if how == 'error':
            raise AppError('rendering')
        if how == 'exit':
            raise AppExit('rendering')

    def value(self, key, tags, timeout):
        from django.utils.safestring import mark_safe
        c = self.proc.image['django_cache_dependencies'].cache

        def callback():
            with self.unit('value', key, timeout=timeout) as u:
                self.note_deps(tags)
                self.w.sim.yield_point('value')
                return '[[<%d]][[>%d]]' % (u.uid, u.uid)
        with self.frame('value', key) as f:
            f.key = 'v:' + key
            f.text = c.get_or_set_callback(key, callback, tags, timeout)
        return mark_safe(f.text)

    def context(self, mode, q):
        self.w.n_dyn += 1
        tl = tuple(mode.get('tl', ()))
        # a list of the application, new for every request or kept by its module
        tags = self.proc.lists.setdefault(tl, list(tl)) if self.w.cfg.get('kept_lists') else list(tl)
        d = {'dyn': 'd%d' % self.w.n_dyn, 'q': q, 'tl': tags, 'tl0': tl, 'r1': [0], 'r2': [0, 1],
             'none': None, 'to60': 60, 'to5': '5', 'to3600': '3600', 'to0': 0}
        if mode.get('bad'):
            # application data the template tag can't use
            d.update({'tl': {'tl': None, 'tl0': None}, 'to': {'to60': 'x', 'to5': None, 'to3600': 'x', 'to0': 'x'}}[mode['bad']])
        for fl in mode.get('flags', ()):
            d[fl] = True
        return d

    # -- operations
    def op_render(self, tpl, q, mode):
        """Renders a template outside of a request."""
        from django.template import Context
        self.mode = mode
        ctx = self.context(mode, q)
        rec = None
        try:
            with self.frame('render', 'T%d' % tpl, ctx['dyn']) as f:
                rec = f.rec
                f.text = self.proc.engine.get_template('T%d' % tpl).render(Context(ctx))
                return f
        except (AppError, AppExit, SimBackendError) + BAD as e:
            self.check_exc(rec, e)
        finally:
            self.flush_excs(rec)

    def check_exc(self, rec, e):
        if isinstance(e, (AppError, AppExit)):
            if not (self.mode.get('fail') or self.mode.get('crash')):
                self.w.violation('exception', 'application error %r came up by itself' % (e,), rec, tb=_tb(e))
        elif isinstance(e, SimBackendError):
            if not rec.fault:
                self.w.violation('exception', '%r without a failure of the backend' % (e,), rec, tb=_tb(e))
        elif isinstance(e, (HarnessError, engine.SimStuck)):
            raise e
        elif self.mode.get('bad') and isinstance(e, BAD):
            self.w.probe('bad')
        else:
            tb = _tb(e)
            if images.REPO not in tb and 'site-packages' not in tb.rsplit('File "', 1)[-1]:
                raise HarnessError(tb)
            self.w.violation('exception', '%s: %r' % (rec.what, e), rec, tb=tb)

    def flush_excs(self, rec):
        excs, self.excs = self.excs, []
        for e in excs:
            self.check_exc(rec, e)

    def op_req(self, view, method, q, headers, mode):
        from django.core.handlers.wsgi import WSGIRequest
        self.mode = mode
        env = {
            'REQUEST_METHOD': method, 'PATH_INFO': '/%s/' % view, 'QUERY_STRING': 'q=' + q if q else '',
            'SERVER_NAME': 'site', 'SERVER_PORT': '80', 'wsgi.input': io.BytesIO(b''), 'wsgi.url_scheme': 'http',
            'SCRIPT_NAME': '', 'CONTENT_LENGTH': '0', 'dst.user': bool(mode.get('user')),
            'dst.crash': mode.get('crash'),
        }
        for h, v in headers.items():
            env['HTTP_' + h.upper().replace('-', '_')] = v
        inv0 = len(self.w.history)
        rec = None
        try:
            with self.frame('req', view) as f:
                rec = f.rec
                f.info = dict(url='/%s/?%s' % (view, q), method=method, headers=dict(headers), view=view)
                self.fin_start = self.w.sim.next_seq()
                request = WSGIRequest(env)
                request.dst = dict(q=q, mode=mode, info=f.info)
                response = self.proc.handler.get_response(request)
                f.info['status'] = response.status_code
                if response.streaming:
                    f.text = b''.join(response.streaming_content).decode()
                else:
                    f.text = response.content.decode()
                response.close()
        except (AppError, AppExit, SimBackendError) + BAD as e:
            self.check_exc(rec, e)
            return None
        finally:
            self.flush_excs(rec)
        if self.w.mw_tx and self.w.cfg['level'] != 'READ UNCOMMITTED' and rec.ok and not rec.fault and f.info.get('view_ran'):
            tags = set()
            for r in self.w.history[inv0:]:
                if r.kind == 'inv' and r.actor is self and r.ok and inv_alias(r) == 'default':
                    tags |= r.tags
            if tags:
                self.w.fins.append((self.fin_start, rec.end, frozenset(tags), self))
        return f

    # -- views
    def view_body(self, spec, request):
        """What the application does in a view."""
        from django.http import HttpResponse, StreamingHttpResponse
        from django.template import Context, RequestContext
        from django.template.response import TemplateResponse
        mode, q, info = request.dst['mode'], request.dst['q'], request.dst['info']
        w = self.w
        info['view_ran'] = True
        age = mode.get('age')
        status = mode.get('status', 200)
        private = bool(spec.get('session') and mode.get('user') and w.cfg.get('anonymous_only'))
        deco = spec.get('deco')
        u = Unit(w, 'page', spec['name'], self.frames[-1], url=info['url'], method=info['method'],
                 headers=info['headers'], status=status, age=age, private=private, stream=spec.get('kind') == 'stream',
                 vary=[], steady='vary2' not in spec)
        u.timeout = age if age is not None else deco.get('timeout') if deco else None
        if u.timeout is None:
            u.timeout = 600
        u.least = u.timeout
        if age is None and w.caching_middleware:
            u.least = min(u.timeout, 600)
            u.timeout = max(u.timeout, 600)        # the site's cache has its own timeout
        info['page'] = u
        ok = False
        extra = ''
        self.units.append(u)
        try:
            if spec.get('session'):
                request.session.accessed = True
            if deco:
                self.note_deps(deco_tags(deco, request), deco.get('alias'))
            if spec.get('qtags'):     # the view adds tags of its own
                request.cache_tagging = set(getattr(request, 'cache_tagging', ())) | set(spec['qtags'])
                self.note_deps(spec['qtags'], deco.get('alias') if deco else None)
            for op in mode.get('ops', ()):
                self.ops([op])
            for v in spec.get('values', ()):
                extra += self.value(v[0], v[2], v[1])
            if mode.get('fail') == 'view':
                raise AppError('view')
            ok = True
        finally:
            self.units.pop()
            self.fin_start = w.sim.next_seq()
            if not ok:
                u.failed = True
        ctx = self.context(mode, q)

        def render(request):
            self.units.append(u)
            try:
                text = ''
                if spec.get('tpl') is not None:
                    t = self.proc.engine.get_template('T%d' % spec['tpl'])
                    if spec.get('reqctx', True):
                        c = RequestContext(request, ctx)
                    else:
                        c = Context(ctx)
                    text = t.render(c)
                u.done = True
                return '[[<%d]]%s%s[[>%d]]' % (u.uid, extra, text, u.uid)
            except BaseException:
                u.failed = True
                raise
            finally:
                self.units.pop()
                u.end = self.fin_start = w.sim.next_seq()
        kind = spec.get('kind', 'html')
        if kind == 'tpl':
            resp = TemplateResponse(request, LazyTemplate(render), {}, status=status)
        elif kind == 'stream':
            resp = StreamingHttpResponse([render(request).encode()], status=status)
        else:
            resp = HttpResponse(render(request), status=status)
        if age is not None:
            resp['Cache-Control'] = 'max-age=%d' % age
        vary = spec.get('vary', ())
        if mode.get('vary2'):
            vary = spec.get('vary2', vary)
        if vary:
            resp['Vary'] = ', '.join(vary)
            u.vary = [h.upper() for h in vary]
        if 'lang' in w.cfg.get('middleware', ()):
            u.vary = u.vary + ['ACCEPT-LANGUAGE']
        return resp


class LazyTemplate(object):
    def __init__(self, fn):
        self.fn = fn

    def render(self, context=None, request=None):
        return self.fn(request)


def deco_tags(deco, request):
    tags = list(deco.get('tags') or ())
    if deco.get('tl'):
        tags += request.dst['mode'].get('tl', ())
    return tags


MW = {
    'update': 'django_cache_dependencies.middleware.UpdateCacheMiddleware',
    'fetch': 'django_cache_dependencies.middleware.FetchFromCacheMiddleware',
    'both': 'django_cache_dependencies.middleware.CacheMiddleware',
    'tx': 'django_cache_dependencies.middleware.TransactionMiddleware',
    'auth': 'dst.webmw.AuthMiddleware',
    'lang': 'dst.webmw.LanguageMiddleware',
    'crash': 'dst.webmw.CrashMiddleware',
}


class WebWorld(CoreWorld):
    def __init__(self, scenario, chooser, rseed):
        from django.conf import settings
        self.units = {}
        self.n_units = 0
        self.n_dyn = 0
        self.obs = []
        self.frames = []
        self.fins = []
        self.sources = template_sources(scenario)
        self.engines = {}
        cfg = scenario['cfg']
        mws = [MW[m] for m in cfg.get('middleware', ())]
        self.caching_middleware = bool({'update', 'both'} & set(cfg.get('middleware', ())))
        self.mw_tx = 'tx' in cfg.get('middleware', ())
        if cfg.get('legacy'):
            settings.MIDDLEWARE = None
            settings.MIDDLEWARE_CLASSES = mws
        else:
            settings.MIDDLEWARE = mws
            settings.MIDDLEWARE_CLASSES = []
        settings.CACHE_MIDDLEWARE_ANONYMOUS_ONLY = bool(cfg.get('anonymous_only'))
        settings.CACHE_MIDDLEWARE_KEY_PREFIX = cfg.get('prefix', '')
        settings.USE_I18N = settings.USE_L10N = cfg.get('i18n', True)
        CoreWorld.__init__(self, scenario, chooser, rseed)

    @staticmethod
    def is_data_key(key):
        return ':tag' not in key.lower() or True

    def app_error(self, msg):
        return AppError(msg)

    def new_process(self, i, p, img):
        from django.core.handlers.base import BaseHandler
        proc = CoreWorld.new_process(self, i, p, img)
        images.activate(img)
        if id(img) not in self.engines:
            self.engines[id(img)] = make_engine(img, self.sources)
        proc.engine = self.engines[id(img)]
        proc.handler = BaseHandler()
        proc.handler.load_middleware()
        proc.views = {}
        dec = img['django_cache_dependencies.decorators']
        for spec in self.sc['views']:
            proc.views[spec['name']] = self.make_view(spec, dec, img)
        return proc

    def make_view(self, spec, dec, img):
        def view(request):
            a = self.by_task[self.sim.current]
            return a.view_body(spec, request)
        view.__name__ = str(spec['name'])
        deco = spec.get('deco')
        if spec.get('tx'):
            inner = view

            def view(request):
                return img['django_cache_dependencies'].cache.transaction(inner)(request)
        if deco:
            kw = {}
            if deco.get('tags') or deco.get('tl'):
                kw['tags'] = lambda request: deco_tags(deco, request)
            if deco.get('prefix'):
                kw['key_prefix'] = deco['prefix']
            if deco.get('alias'):
                kw['cache'] = deco['alias']
            args = [deco['timeout']] if deco.get('timeout') is not None else []
            form = deco.get('form', 'plain')
            if form == 'plain':
                return dec.cache_page(*args, **kw)(view)
            if form == 'first':
                return dec.cache_page(view, *args, **kw)
            return dec.cache_page(*(args + [view]), **kw)
        return view

    def add_actor(self, name, proc, program, kind='actor'):
        a = WebActor(self, name, proc, program, kind)
        self.actors.append(a)
        return a

    def observe(self, actor, f):
        """What came out of a frame: units rendered earlier must have come from the cache."""
        tops, regions = parse(f.text)
        self.sigh.update(('%s%d;' % (f.kind, actor.task.id)).encode())
        if tops is None:
            self.violation('garbled', '%s %s gave a garbled text %r' % (f.kind, f.name, f.text[:300]), f.rec)
            return
        f.tops = tops
        f.regions = regions
        for uid, inside in tops:
            for x in inside:
                if x not in self.units:
                    self.violation('garbled', '%s %s gave unknown content %d' % (f.kind, f.name, x), f.rec)
                    return
            u = self.units[uid]
            if u.start < f.start:
                self.obs.append((f, actor, u, inside))
                self.probe('hit_' + u.kind)
            else:
                self.probe('fresh_' + u.kind)
        if f.kind == 'frag' and f.name.endswith('!'):
            self.check_regions(f)

    def check_regions(self, f):
        if '<nocache' in f.text:
            self.violation('dynamic', 'unevaluated dynamic region in %r' % f.text[:300], f.rec)
        for n, dyn, wv, uid in f.regions:
            self.probe('region')
            if dyn != f.dyn:
                self.violation('dynamic', 'dynamic region %d of %s shows %s instead of %s' % (n, f.name, dyn, f.dyn), f.rec)
            expected = f.dyn if n >= 1000 else self.units[uid].dyn
            if wv != expected:
                self.violation('dynamic', 'dynamic region %d of %s got data %s instead of %s' % (
                    n, f.name, wv, expected), f.rec)

    def nontrivial(self):
        return self.sim.switches > 3 and bool(self.obs)

    # -- final phase
    def _final(self):
        CoreWorld._final(self)

    def final_runner(self, procs):
        return WebFinal(self, procs)


class WebFinal(object):
    def __init__(self, w, procs):
        self.w = w
        self.procs = procs

    def spawn(self, name, proc, fn):
        w = self.w
        a = w.add_actor(name, proc, [[['call', fn]]], kind='probe')
        w.start_actor(a)
        w.sim.block(a.task)

    def main(self):
        w = self.w
        w.sim.sleep((w.cfg.get('delay', 0) or 0) + 1.5)
        procs = self.procs[-2:]
        reqs, renders = {}, {}

        def walk(ops):
            for op in ops:
                if op[0] == 'req':
                    m = {k: v for k, v in op[5].items() if k in ('tl', 'flags', 'age', 'vary2')}
                    reqs[repr((op[1], op[2], op[3], sorted(op[4].items()), sorted(m.items())))] = (
                        'req', op[1], op[2], op[3], op[4], m)
                elif op[0] == 'render':
                    m = {k: v for k, v in op[3].items() if k in ('tl', 'flags')}
                    renders[repr((op[1], op[2], sorted(m.items())))] = ('render', op[1], op[2], m)
        for a in w.sc['actors']:
            for r in a['reqs']:
                walk(r)
        todo = [renders[k] for k in sorted(renders)] + [reqs[k] for k in sorted(reqs)]
        k = w.sc['rseed'] % max(1, len(todo))
        todo = (todo[k:] + todo[:k])[:6]

        def once(actor, t):
            return actor.op_render(*t[1:]) if t[0] == 'render' else actor.op_req(*t[1:])

        def quiet(actor):
            for t in todo:
                once(actor, t)
        self.spawn('quiet', procs[-1], quiet)
        w.sim.sleep(6)

        def live(actor):
            for t in [t for t in todo if t[0] == 'render' or t[2] in ('GET', 'HEAD')][:2]:
                self.live(actor, lambda: once(actor, t))
        self.spawn('live', procs[w.sc['rseed'] % len(procs)], live)

    def live(self, actor, fn):
        w = self.w
        f1 = fn()
        f2 = fn()
        self.same(f1, f2)
        if f2 is None or not hasattr(f2, 'tops'):
            return
        tags = set()
        for uid, inside in f2.tops:
            for x in inside:
                tags |= w.units[x].deps
        tags = sorted(tags)
        k = w.sc['rseed'] % max(1, len(tags))
        for t in (tags[k:] + tags[:k])[:2]:
            actor.op_inval(*(['default', [t]] if ':' not in t else [t.split(':')[0], [t.split(':')[1]]]))
            f3 = fn()
        if tags:
            self.same(f3, fn())

    def same(self, f1, f2):
        """Nothing changed between the two: the second is served from the cache, as far as it may be."""
        w = self.w
        if f1 is None or f2 is None or not hasattr(f1, 'tops') or not hasattr(f2, 'tops'):
            return
        old = set()
        for uid, inside in f1.tops:
            old |= inside
        for uid, inside in f2.tops:
            for x in inside:
                u = w.units[x]
                if x in old or u.start < f2.start or u.prevented or u.private:
                    continue
                if u.timeout is not None and u.timeout < 5:
                    continue
                if u.kind == 'page' and (not w.caches_page(u) or not u.least or u.status != 200 or u.age == 0 or u.stream
                                         or u.method not in ('GET', 'HEAD')):
                    continue
                w.violation('live', '%r was rendered again though nothing changed since %s was rendered' % (u, f1.name),
                            f2.rec)
                return
            w.probe('live')


def caches_page(self, u):
    if {'update', 'fetch'} <= set(self.cfg.get('middleware', ())) or 'both' in self.cfg.get('middleware', ()):
        return True
    return any(v['name'] == u.name and v.get('deco') for v in self.sc['views'])


WebWorld.caches_page = caches_page
Unit.private = False
Unit.end = INF
Unit.least = None
Unit.upper = None
Unit.age = None
Unit.status = 200


# -- oracles -----------------------------------------------------------------------------------

def judge(w):
    for r in w.history:
        if r.kind == 'inv':
            r.qtags = qualified(inv_alias(r), r.tags)
    invs = [r for r in w.history if r.kind == 'inv' and r.ok and r.end is not None]
    lost(w, invs)
    for f, actor, u, inside in w.obs:
        where = '%s %s by %s [%s,%s]' % (f.kind, f.name, actor.name, f.start, f.rec.end)
        cls = 'page_' if u.kind == 'page' else 'frag_'
        deps = set()
        for x in inside:
            deps |= w.units[x].deps
        stored = u.stored()
        for i in invs:
            if i.qtags & deps and stored < i.start and i.end < f.start:
                w.violation(cls + 'stale', '%s: %r stored before %s was served, though tags %s were invalidated [%s,%s] by %s' % (
                    where, u, stored, sorted(i.qtags & deps), i.start, i.end, i.actor.name), f.rec)
                break
        for start, end, tags, by in w.fins:
            if tags & deps and stored < start and end < f.start:
                w.violation(cls + 'stale', '%s: %r stored before %s was served, though the transaction of %s, which '
                            'invalidated %s, was finished [%s,%s]' % (where, u, stored, by.name, sorted(tags & deps), start, end), f.rec)
                break
        for x in inside:
            d = w.units[x]
            if d.failed:
                w.violation(cls + 'broken', '%s: %r was served whose rendering failed' % (where, d), f.rec)
            if d.prevented:
                w.violation(cls + 'prevented', '%s: %r was served whose rendering prevented caching' % (where, d), f.rec)
        if u.timeout is not None and u.frame.rec.t_end is not None and f.t_start > u.frame.rec.t_end + u.timeout + 1e-3:
            w.violation(cls + 'expired', '%s: %r was served %.3f s after its timeout' % (
                where, u, f.t_start - u.frame.rec.t_end - u.timeout), f.rec)
        if u.kind == 'frag' and f.kind == 'frag' and u.name != f.name.rstrip('!'):
            w.violation('frag_wrong', '%s: fragment %r was served' % (where, u), f.rec)
        if u.kind == 'value' and f.kind == 'value' and u.name != f.name:
            w.violation('frag_wrong', '%s: %r was served' % (where, u), f.rec)
        if u.kind == 'page':
            page(w, f, where, u)
        elif f.kind == 'req':
            w.violation('page_wrong', '%s: %r was served' % (where, u), f.rec)


def inv_alias(r):
    return r.alias


class Cand(object):
    """One stored (or possibly stored) rendering of a cached thing."""

    def __init__(self, u, f, actor):
        self.u, self.f, self.actor = u, f, actor
        self.closed = f.rec.ok and f.rec.end is not None
        self.tops = None
        deps = set()
        for uid, inside in getattr(f, 'tops', ()):
            if uid == u.uid:
                self.tops = inside
        self.deps = deps


def lost(w, invs):
    """A thing rendered though it was in the cache and nothing it depends on changed."""
    if w.cfg.get('faults') or w.cfg.get('delay') or w.cfg['level'] not in ('READ UNCOMMITTED', 'READ COMMITTED'):
        return
    # an invalidation may take effect again at the end of the transaction around it
    reqs = [f for f, a, us in w.frames if f.kind == 'req']
    spans = []
    for r in w.history:
        if r.kind == 'inv':
            end = INF if r.end is None else r.end
            for f in reqs:
                if f.actor is r.actor and f.rec.error == 'AppExit':
                    end = INF       # exits bypass the middleware, its transaction is finished by a later request
                if f.actor is r.actor and f.start <= r.start and (f.rec.end is None or f.rec.end > r.start):
                    end = INF if f.rec.end is None else max(end, f.rec.end)
            spans.append((r.start, end, r.qtags))
    by_key = {}
    for f, actor, us in w.frames:
        for u in us:
            key = cache_key(w, f, u)
            if key is not None:
                by_key.setdefault(key, []).append(Cand(u, f, actor))
    for key, cands in by_key.items():
        if len(cands) < 2:
            continue
        # everything the page of this URL may depend on: all of them share one list of headers
        for me in cands:
            start = me.f.start
            before = [c for c in cands if c is not me and c.u.start < me.u.start and not c.u.prevented
                      and not c.u.failed and c.u.done]
            sure = [c for c in before if c.closed and c.f.rec.end < start and c.tops is not None]
            if not sure or any(c.tops is None for c in before):
                continue
            cur = [c for c in before if not any(
                d.u.end > (INF if c.f.rec.end is None else c.f.rec.end) for d in sure)]
            if all(intact(w, c, me, spans) for c in cur):
                c = cur[0]
                w.violation('page_lost' if me.u.kind == 'page' else 'frag_lost',
                            '%s %s by %s [%s,%s]: rendered again, though %r was stored before %s and none of its tags %s was '
                            'invalidated since' % (me.f.kind, key, me.actor.name, start, me.f.rec.end, c.u, c.f.rec.end,
                                                   sorted(all_deps(w, c))), me.f.rec)
            else:
                w.probe('gone')


def all_deps(w, c):
    res = set()
    for x in c.tops:
        res |= upper(w, w.units[x])
    return res


def upper(w, u):
    """Tags the thing may have inherited, also from what failed (and was shown nowhere) during its rendering."""
    if u.upper is None:
        u.upper = res = set(u.deps)
        for f, actor, us in w.frames:
            if actor is u.frame.actor and u.start < f.start < u.end:
                for x in us:
                    res |= x.deps
                for uid, inside in getattr(f, 'tops', ()):
                    for x in inside:
                        if w.units[x] is not u:
                            res |= upper(w, w.units[x])
    return u.upper


def life(u):
    return u.least if u.least is not None else u.timeout if u.timeout is not None else 300


def intact(w, c, me, spans):
    if me.f.rec.t_end is None or me.f.rec.t_end > c.u.t_start + life(c.u) - 1:
        return False
    if c.u.kind == 'page':
        url = c.u.url
        deps = set()
        for f, actor, us in w.frames:
            for u in us:
                if u.kind == 'page' and u.url == url:
                    if not u.done:
                        return False
                    for uid, inside in getattr(f, 'tops', ()):
                        for x in inside:
                            deps |= upper(w, w.units[x])
                    if u.timeout is not None and u.timeout < 60 or u.prevented or u.failed or u.status != 200 or u.age is not None:
                        return False
    else:
        deps = all_deps(w, c)
    a = c.u.start
    b = INF if me.f.rec.end is None else me.f.rec.end
    if any(s < b and e > a and tags & deps for s, e, tags in spans):
        return False
    # stores which introduce the same new tags at the same time may hinder each other
    end = INF if c.f.rec.end is None else c.f.rec.end
    for f, actor, us in w.frames:
        if actor is c.actor or f.start > end or (f.rec.end is not None and f.rec.end < c.u.start):
            continue
        if not us:
            continue
        tops = getattr(f, 'tops', None)
        if tops is None or f.kind == 'req':
            return False
        if any(upper(w, w.units[x]) & deps for uid, inside in tops for x in inside):
            return False
    return True


def cache_key(w, f, u):
    if u.kind in ('frag', 'value'):
        return f.key if f.kind == u.kind and f.key and u.frame is f else None
    if u.kind == 'page' and f.kind == 'req' and w.caches_page(u) and not w.cfg.get('anonymous_only'):
        if u.steady and u.method == 'GET' and u.status == 200 and u.age is None and not u.stream:
            hs = {k.upper(): v for k, v in u.headers.items()}
            return 'p:%s:%s' % (u.url, sorted((h, hs.get(h)) for h in u.vary))


def page(w, f, where, u):
    info = f.info
    if u.url != info['url'] or u.name != info['view']:
        w.violation('page_wrong', '%s: page of %s was served for %s' % (where, u.url, info['url']), f.rec)
    if info['method'] not in ('GET', 'HEAD') or u.method not in ('GET', 'HEAD') or \
            (u.method == 'HEAD' and info['method'] == 'GET'):
        w.violation('page_wrong', '%s: page rendered for %s was served for %s' % (where, u.method, info['method']), f.rec)
    # Django keeps one list of headers per URL, so the response has to vary steadily
    for h in u.vary if u.steady else ():
        a, b = [{k.upper(): v for k, v in x.items()}.get(h) for x in (u.headers, info['headers'])]
        if a != b:
            w.violation('page_wrong', '%s: page rendered for %s=%s was served for %s' % (where, h, a, b), f.rec)
    if u.status != 200 or u.age == 0 or u.timeout == 0 or u.stream or u.private:
        w.violation('page_uncacheable', '%s: page with status=%s max-age=%s timeout=%s streaming=%s private=%s was served from '
                    'the cache' % (where, u.status, u.age, u.timeout, u.stream, u.private), f.rec)
    if not w.caches_page(u):
        w.violation('page_uncacheable', '%s: page of a view which is not cached was served from the cache' % where, f.rec)
    if info.get('status') != 200:
        w.violation('page_wrong', '%s: cached page with status %s' % (where, info.get('status')), f.rec)
