"""Cache backends (the seam) and wiring of the code under test inside of one simulated process."""
import sys

from . import images
from .server import Client

_world = [None]


def world():
    return _world[0]


def set_world(w):
    _world[0] = w


DJANGO_SETTINGS = dict(
    SECRET_KEY='dst',
    CACHES={
        'default': {'BACKEND': 'dst.djbackend.SimCache', 'LOCATION': 'default', 'TIMEOUT': 300},
        'a1': {'BACKEND': 'dst.djbackend.SimCache', 'LOCATION': 'a1', 'KEY_PREFIX': 'p', 'VERSION': 2, 'TIMEOUT': 300},
        'a2store': {'BACKEND': 'dst.djbackend.SimCache', 'LOCATION': 'a2', 'TIMEOUT': 300},
    },
    CACHE_TAGGING={},
    INSTALLED_APPS=['django_cache_dependencies'],
    TEMPLATES=[{'BACKEND': 'django.template.backends.django.DjangoTemplates', 'APP_DIRS': False,
                'OPTIONS': {'libraries': {
                    'cache_tagging_tags': 'django_cache_dependencies.templatetags.cache_tagging_tags'}}}],
    DATABASES={'default': {'ENGINE': 'django.db.backends.sqlite3', 'NAME': ':memory:'}},
    ALLOWED_HOSTS=['*'],
    USE_TZ=False,
    ROOT_URLCONF='dst.weburls',
    CACHE_MIDDLEWARE_SECONDS=600,
    CACHE_MIDDLEWARE_KEY_PREFIX='',
    CACHE_MIDDLEWARE_ALIAS='default',
)
DEFAULT_VERSION = {'default': 1, 'a1': 2, 'a2': 1}
ALIASES = ('default', 'a1', 'a2')     # a2 is mapped to the backend a2store through CACHE_TAGGING BACKEND


def configure_tagging(level, delay, levels=None):
    from django.conf import settings
    conf = {}
    for alias in ALIASES:
        lv = (levels or {}).get(alias, level)
        opts = {'DELAY': delay, 'ISOLATION_LEVEL': lv}
        if lv == 'READ COMMITTED':
            del opts['ISOLATION_LEVEL']       # the documented default
        if not delay:
            del opts['DELAY']
        if alias == 'a2':
            opts['BACKEND'] = 'a2store'
        if opts:
            conf[alias] = opts
    settings.CACHE_TAGGING = conf


def make_plain_backend(img, location, key_prefix, version):
    """An adapter written by a non-Django user on top of AbstractCache."""
    AbstractCache = img['cache_dependencies.cache'].AbstractCache
    w = world()
    client = Client(w.sim, w.server(location))

    class PlainCache(AbstractCache):
        def _ttl(self, timeout):
            return 300 if timeout is None else timeout

        def get(self, key, default=None, version=None):
            r = client.get(self.make_key(key, version))
            return default if r is None else r[0]

        def set(self, key, value, timeout=None, version=None):
            client.set(self.make_key(key, version), value, self._ttl(timeout))

        def add(self, key, value, timeout=None, version=None):
            return client.add(self.make_key(key, version), value, self._ttl(timeout))

        def delete(self, key, version=None):
            client.delete(self.make_key(key, version))

        def clear(self):
            client.clear()

        if w.cfg.get('native_many', True):
            def get_many(self, keys, version=None):
                m = {self.make_key(k, version): k for k in keys}
                return {m[f]: v for f, v in client.get_many(m).items()}

            def set_many(self, data, timeout=None, version=None):
                client.set_many({self.make_key(k, version): v for k, v in data.items()}, self._ttl(timeout))

            def delete_many(self, keys, version=None):
                client.delete_many([self.make_key(k, version) for k in keys])

    c = PlainCache()
    c.key_prefix = key_prefix
    c.version = version
    return c


class PlainBinding(object):
    """Wiring without Django: the classes of cache_dependencies put together by hand, per thread."""

    def __init__(self, img, level, delay):
        self.img = img
        self.level = level
        self.delay = delay
        self.per_task = {}

    def cache(self, alias):
        t = world().sim.current
        key = (t.id, alias)
        c = self.per_task.get(key)
        if c is None:
            img = self.img
            location = {'a2': 'a2'}.get(alias, alias)
            backend = make_plain_backend(img, location, 'p' if alias == 'a1' else '', DEFAULT_VERSION[alias])
            lock = img['cache_dependencies.locks'].DependencyLock.make(
                self.level, lambda: self.cache(alias).cache, self.delay)
            tr = img['cache_dependencies.transaction']
            rel = img['cache_dependencies.relations']
            c = img['cache_dependencies.tagging'].CacheTagging(
                backend,
                rel.ThreadSafeRelationManagerDecorator(rel.RelationManager()),
                tr.ThreadSafeTransactionManagerDecorator(tr.TransactionManager(lock)))
            self.per_task[key] = c
        return c

    def close_all(self):
        t = world().sim.current
        for (tid, alias), c in list(self.per_task.items()):
            if tid == t.id:
                c.close()


class DjangoBinding(object):
    def __init__(self, img):
        self.m = img['django_cache_dependencies']

    def cache(self, alias):
        return self.m.caches[alias]

    def default_proxy(self):
        return self.m.cache

    def close_all(self):
        from django.core import signals
        signals.request_finished.send(sender=type(self))
