"""Template tags of the simulated site: they observe rendering (units, frames) and let it meet yield points."""
from django.template import Library, Node

from .bindings import world

register = Library()


def _actor():
    w = world()
    return w.by_task[w.sim.current]


class UnitNode(Node):
    """The body of a cached fragment: every rendering of it gets an identity, visible in the text."""

    def __init__(self, name, timeout, nodelist):
        self.name, self.timeout, self.nodelist = name, timeout, nodelist

    def render(self, context):
        a = _actor()
        with a.unit('frag', self.name, dyn=context.get('dyn'), timeout=self.timeout) as u:
            return '[[<%d]]%s[[>%d]]' % (u.uid, self.nodelist.render(context), u.uid)


class MarkNode(Node):
    """Around a cached fragment: observes what it yields."""

    def __init__(self, name, naming, nodelist):
        self.name, self.naming, self.nodelist = name, naming, nodelist

    def render(self, context):
        a = _actor()
        with a.frame('frag', self.name, dyn=context.get('dyn')) as f:
            f.key = self.name.rstrip('!')
            if self.naming == 'q':
                f.key += '_' + context['q']
            elif self.naming == 'loop':
                f.key += '_%d' % context['forloop']['counter']
            f.text = self.nodelist.render(context)
            return f.text


@register.tag
def unit(parser, token):
    bits = token.split_contents()
    nodelist = parser.parse(('endunit',))
    parser.delete_first_token()
    return UnitNode(bits[1], None if bits[2] == '-' else int(bits[2]), nodelist)


@register.tag
def mark(parser, token):
    nodelist = parser.parse(('endmark',))
    parser.delete_first_token()
    return MarkNode(*(token.split_contents()[1:3] + [nodelist]))


@register.simple_tag(takes_context=True)
def dst_dep(context, *tags):
    if len(tags) == 1 and isinstance(tags[0], (list, tuple, set, frozenset)):
        tags = tags[0]
    _actor().note_deps(tags)
    return ''


@register.simple_tag(takes_context=True)
def dst_prevent(context):
    _actor().note_prevent()
    return ''


@register.simple_tag(takes_context=True)
def dst_value(context, key, timeout, *tags):
    return _actor().value(key, tags, timeout)


@register.simple_tag(takes_context=True)
def dst_fail(context):
    _actor().maybe_fail(context)
    return ''


@register.simple_tag
def dst_slow():
    w = world()
    w.sim.yield_point('slow')
    if w.cfg.get('latency'):
        w.sim.sleep(w.cfg['latency'])
    return ''
