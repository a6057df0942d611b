"""Module images: one copy of the code under test per simulated process.

The source is compiled once from the working tree of /repo; each image executes
it into fresh modules, so that simulated processes share no module-level state.
"""
import importlib.abc
import importlib.util
import os
import sys
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
PACKAGES = ('cache_dependencies', 'django_cache_dependencies')

EXTRA = []      # further modules of the code under test to put into every image

_codes = {}
_names = []
_images = []
_active = [None]
_base = {}
SIGNALS = ('request_started', 'request_finished')


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path, target=None):
        root = name.split('.')[0]
        if root not in PACKAGES:
            return None
        if name not in _codes:
            base = os.path.join(REPO, *name.split('.'))
            if os.path.isfile(os.path.join(base, '__init__.py')):
                f, pkg = os.path.join(base, '__init__.py'), True
            elif os.path.isfile(base + '.py'):
                f, pkg = base + '.py', False
            else:
                return None
            with open(f, 'rb') as fh:
                _codes[name] = (compile(fh.read(), f, 'exec', dont_inherit=True), f, pkg)
        code, f, pkg = _codes[name]
        return importlib.util.spec_from_loader(name, self, origin=f, is_package=pkg)

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code, f, pkg = _codes[module.__name__]
        module.__file__ = f
        if pkg:
            module.__path__ = [os.path.dirname(f)]
        exec(code, module.__dict__)


_finder = _Finder()


class Image(object):
    def __init__(self, modules):
        self.modules = modules
        self.receivers = {}     # of the signals of the request, which belong to the process

    def __getitem__(self, name):
        return self.modules[name]


def setup_django(settings_dict):
    warnings.simplefilter('ignore')
    sys.dont_write_bytecode = True
    if _finder not in sys.meta_path:
        sys.meta_path.insert(0, _finder)
    from django.conf import settings
    if not settings.configured:
        settings.configure(**settings_dict)
        import django
        django.setup()


def _current_modules():
    return {n: m for n, m in sys.modules.items() if n.split('.')[0] in PACKAGES and m is not None}


def load():
    """Executes a fresh copy of the code under test."""
    for n in list(_current_modules()):
        del sys.modules[n]
    from django.core import signals
    for name in SIGNALS:
        sig = getattr(signals, name)
        if name not in _base:
            _base[name] = list(sig.receivers)
        sig.receivers = list(_base[name])
    import django_cache_dependencies  # noqa
    import cache_dependencies.tagging  # noqa
    import django_cache_dependencies.decorators  # noqa
    import django_cache_dependencies.middleware  # noqa
    for name in EXTRA:
        __import__(name)
    img = Image(_current_modules())
    for name in SIGNALS:
        img.receivers[name] = list(getattr(signals, name).receivers)
    _active[0] = img
    return img


def pool(n):
    while len(_images) < n:
        _images.append(load())
    return _images[:n]


def activate(img):
    if img is None or _active[0] is img:
        return
    _active[0] = img
    sys.modules.update(img.modules)
    from django.core import signals
    for name in SIGNALS:
        getattr(signals, name).receivers = img.receivers[name]
