"""The core world as seen by the runner."""
from . import bindings, images
from .gen import Gen


def setup():
    images.setup_django(bindings.DJANGO_SETTINGS)
    images.pool(3)


def generate(rng, spec):
    total = sum(w for w, _ in spec['profiles'])
    x = rng.random() * total
    for w, p in spec['profiles']:
        x -= w
        if x < 0:
            break
    return Gen(rng, p).scenario()


def run(scenario, chooser, spec):
    from . import core, oracles
    w = core.CoreWorld(scenario, chooser, scenario['rseed'])
    w.spec_known = spec.get('known', ())
    w.run()
    oracles.judge(w, spec['classes'])
    return w
