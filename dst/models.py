"""Django models of the simulated application (real ORM over sqlite in memory, one database per thread)."""
from . import images, seams  # noqa

_classes = {}
N_MODELS = 2


def classes(img):
    """The models of one simulated process."""
    res = _classes.get(id(img))
    if res is None:
        from django.db import models
        res = []
        n = len(_classes)
        for k in range(N_MODELS):
            name = str('Item%d_%d' % (n, k))
            meta = type(str('Meta'), (), {'app_label': 'dstapp'})
            res.append(type(name, (models.Model,), {
                '__module__': 'dst.models', 'Meta': meta,
                'id': models.IntegerField(primary_key=True), 'grp': models.IntegerField(default=0)}))
        _classes[id(img)] = res
    return res


def model_tags(tags, pk, grp, created):
    res = []
    for t in tags:
        if isinstance(t, int):
            res.append(t)
        elif t == 'npk':
            res.append(pk)
        elif t == 'ngrp':
            res.append(grp)
        elif t == 'pk':
            res.append('t%d' % pk)
        elif t == 'grp':
            res.append('t%d' % grp)
        elif t.startswith('+'):
            if created:
                res.append(int(t[2:]) if t[1] == '#' else t[1:])
        else:
            res.append(t)
    return res


_COLL = {'tuple': tuple, 'list': list, 'set': set, 'frozenset': frozenset}


def make_func(form, tags):
    """A function which gives tags, written in one of the documented ways."""
    if form == 'one':
        return lambda obj: model_tags(tags, obj.pk, obj.grp, False)[0]
    if form == 'sig':
        return lambda *a, **kw: tuple(model_tags(tags, kw['instance'].pk, kw['instance'].grp, False))
    if form == 'named':
        def named(sender, instance, **kw):
            assert isinstance(instance, sender)
            return set(model_tags(tags, instance.pk, instance.grp, False))
        return named
    if form == 'created':
        def created(instance, **kw):
            return model_tags(tags, instance.pk, instance.grp, kw.get('created', False))
        return created
    conv = _COLL[form]
    return lambda obj: conv(model_tags(tags, obj.pk, obj.grp, False))


FORMS = ('one', 'sig', 'named', 'created', 'tuple', 'list', 'set', 'frozenset')

_saved = []


_pending = []


def discovered(n):
    """Runs at import of caches.py of an application."""
    batches, add = _pending[0]
    if n < len(batches):
        add(batches[n])


def register(img, registrations, discover=False):
    """Registers the handlers as caches.py of an application does."""
    from django.db.models import signals
    m = img['django_cache_dependencies']
    ms = classes(img)
    if not _saved:
        for sig in (signals.post_save, signals.pre_delete):
            _saved.append((sig, list(sig.receivers)))

    def add(batch):
        handlers = []
        for idx, form, tags, alias in batch:
            item = [ms[idx], make_func(form, tags)]
            if alias == 'proxy':
                item.append(m.cache)
            elif alias is not None:
                item.append(alias)
            handlers.append(tuple(item))
        m.registry.register(handlers)
        del getattr(m.registry, '_registry', [])[:]
    if discover:
        import sys
        from django.conf import settings
        images.activate(img)
        for n in ('shop', 'blog'):
            sys.modules.pop('dst.apps.%s.caches' % n, None)
        apps = settings.INSTALLED_APPS
        settings.INSTALLED_APPS = ['dst.apps.plain', 'dst.apps.shop', 'django_cache_dependencies', 'dst.apps.blog']
        _pending[:] = [(registrations, add)]
        try:
            m.autodiscover()
        finally:
            settings.INSTALLED_APPS = apps
            del _pending[:]
    else:
        for batch in registrations:
            add(batch)
    return ms


def reset():
    while _saved:
        sig, receivers = _saved.pop()
        sig.receivers = receivers
        sig.sender_receivers_cache.clear()


def prepare(model, w, pk, what):
    """Brings the row into the state which the operation expects."""
    from django.db import connection
    with connection.cursor() as c:
        t = model._meta.db_table
        c.execute('create table if not exists %s (id integer primary key, grp integer)' % t)
        c.execute('delete from %s where id = %d' % (t, pk))
        if what != 'create':
            c.execute('insert into %s (id, grp) values (%d, 0)' % (t, pk))


def release():
    """Drops the database of this thread."""
    from django.db import connections
    for conn in connections.all():
        if conn.connection is not None:
            conn.connection.close()
            conn.connection = None
