"""Which world, generator profiles and oracles decide each property."""
from .gen import VARIED, profile

COMMON = ('exception', 'stuck', 'hang')
RR = (('REPEATABLE READ', 1), ('SERIALIZABLE', 1))
RC = (('READ COMMITTED', 1),)
NONTORN = dict(atomic_reads=True)

CHECKS = {}


def core(pid, classes, profiles, **kw):
    CHECKS[pid] = dict(world='core', classes=tuple(classes) + COMMON, profiles=profiles, **kw)


V2 = ((None, 3), (7, 1), (0, 0.4))

SHARED = (('kw', 3), ('pos', 2), ('set', 1), ('dep', 1), ('depc', 1), ('shared', 3), ('sharedc', 1), ('wrap', 1))
SHARED_INVAL = (('args', 2), ('dep', 0.5), ('shared', 4), ('sharedc', 2), ('wrap', 1))

SOME_FALSY = (('str', 6), ('dict', 1), ('obj', 1), ('none', 0.6), ('zero', 0.3), ('empty', 0.3), ('edict', 0.3))

core('C01', ('stale', 'stale_inh'), [
    (4, profile(versions=V2, odd=0.35)),
    (3, profile(faults=1.0, versions=V2, evict_short=True)),
    (1, profile(faults=0.5, skew=30.0, jump_ops=0.5, versions=V2, evict_short=True)),
    (1, profile(line=1.0, n_actors=((2, 3), (3, 1)), n_reqs=((1, 1),), latency=0)),
    (0.4, profile(big=1.0, versions=V2, n_actors=((1, 1), (2, 2)), n_reqs=((1, 2), (2, 1)), n_ops=((2, 1), (4, 2)), latency=0,
                  ops=dict(many=3, inval=2))),
])
core('C02', ('lost',), [
    (4, profile(versions=V2, recover=0, odd=0.35)),
    (1, profile(forms=SHARED, inval_forms=SHARED_INVAL, n_versions=((1, 1),), n_tags=((2, 2), (3, 1)), n_aliases=((1, 1),), recover=0,
                roles=(('kept', 3), (None, 1)), n_actors=((1, 3), (2, 1)), n_reqs=((1, 1), (2, 2), (3, 1)), n_keys=((2, 1), (3, 2)),
                warm=0.2, ops=dict(tx=5, inval=5, set=4, many=1, clear=0))),
    (2, profile(faults=1.0, fault_kinds=('error', 'error_after', 'late', 'partial', 'evict'), versions=V2)),
    (1, profile(payloads=VARIED, recover=0)),
    (1, profile(skew=5.0, jump_ops=0.3)),
    (1, profile(line=1.0, n_actors=((2, 3), (3, 1)), n_reqs=((1, 1),), latency=0)),
    (0.4, profile(big=1.0, versions=V2, n_actors=((1, 1), (2, 2)), n_reqs=((1, 2), (2, 1)), n_ops=((2, 1), (4, 2)), latency=0,
                  ops=dict(many=3, inval=2))),
])
core('C03', ('wrong', 'rerun'), [
    (4, profile(payloads=VARIED, n_keys=((1, 2), (2, 2)), versions=V2,
                ops=dict(raw=0.6, delete=0.6, set=3, gos=4, native=0.3))),
    (2, profile(payloads=VARIED, n_keys=((1, 2), (2, 2)), faults=1.0, ops=dict(raw=0.4, delete=0.4, set=3, gos=4))),
    (1, profile(payloads=VARIED, n_keys=((1, 2), (2, 2)), levels=RR, ops=dict(tx=4, gos=5))),
    (1, profile(line=1.0, n_actors=((2, 3), (3, 1)), n_reqs=((1, 1),), n_keys=((1, 1),), latency=0)),
])
core('C04', ('stale_inh',), [
    (5, profile(payloads=SOME_FALSY, depth=4, n_keys=((2, 1), (3, 2), (4, 2), (5, 1)), versions=V2, n_actors=((1, 2), (2, 2), (3, 1)),
                roles=((None, 4), ('derived', 1)),
                ops=dict(comp=6, gos=5, many=3, inval=2, tx=0.7, **{'try': 1.5}))),
    (2, profile(depth=4, n_keys=((2, 1), (3, 2), (4, 2)), faults=1.0, fault_kinds=('error', 'error_after', 'evict'),
                ops=dict(comp=6, gos=5, many=3, inval=2, tx=0.7, **{'try': 1.5}))),
    (1, profile(depth=4, levels=RR, n_keys=((2, 1), (3, 2), (4, 2)), ops=dict(comp=6, gos=5, many=3, inval=2, tx=2))),
    (1, profile(n_actors=((1, 3), (2, 1)), n_reqs=((1, 2), (2, 2)), n_keys=((2, 1), (3, 2)), n_tags=((2, 2), (3, 1)), n_aliases=((1, 1),),
                n_versions=((1, 1),), warm=0.5, outs=(('ok', 3), ('skip', 2)), depth=3,
                ops=dict(comp=5, get=4, set=3, gos=2, many=2, inval=3, tx=0.5, ignore=2, close=0.05, closeall=0.05))),
    (0.4, profile(big=1.0, versions=V2, n_actors=((1, 1), (2, 2)), n_reqs=((1, 2), (2, 1)), n_ops=((2, 1), (4, 2)), latency=0,
                  ops=dict(many=3, inval=2))),
])
core('C05', ('lost', 'stale_inh'), [
    (5, profile(payloads=SOME_FALSY, forms=SHARED, depth=4, n_keys=((2, 1), (3, 2), (4, 2)), n_tags=((2, 1), (3, 2), (4, 1)), n_aliases=((1, 1), (2, 1)),
                n_procs=((1, 3), (2, 1)), aliases=(('default', 3), ('proxy', 1), ('a1', 2), ('a2', 2)), ops=dict(comp=6, gos=5, many=2, inval=2, tx=0.7, close=0.4, closeall=0.3,
                                                   **{'try': 1.5, 'raise': 0.4}))),
    (2, profile(depth=4, n_keys=((2, 1), (3, 2), (4, 2)), faults=1.0, fault_kinds=('error', 'error_after', 'evict'),
                ops=dict(comp=6, gos=5, many=2, inval=2, tx=1, close=0.4, **{'try': 1.5}))),
    (1, profile(depth=4, line=1.0, n_procs=((1, 1),), n_actors=((2, 1), (3, 1)), n_reqs=((1, 1),), latency=0)),
    (1, profile(depth=3, roles=((None, 1), ('derived', 1.5), ('retry', 1.5)), n_keys=((2, 1), (3, 2), (4, 1)), n_tags=((2, 1), (3, 2)), versions=V2,
                n_versions=((1, 1), (2, 1)), n_aliases=((1, 1), (2, 2)), aliases=(('default', 2), ('proxy', 1), ('a1', 2)),
                ops=dict(close=0.4, closeall=0.3))),
    (1, profile(n_actors=((1, 3), (2, 1)), n_reqs=((2, 2), (3, 2)), n_keys=((2, 2), (3, 1)), n_tags=((2, 1),), faults=1.0,
                fault_kinds=('error', 'error_after'), fault_p=(0.1, 0.3), n_aliases=((1, 1),), n_versions=((1, 1),), warm=0,
                outs=(('ok', 3), ('skip', 3), ('raise', 1)), tx_hows=(('open', 3), ('with', 1)), depth=3,
                ops=dict(comp=6, gos=3, get=4, inval=3, tx=3, many=1))),
    (1, profile(n_actors=((1, 3), (2, 1)), n_reqs=((1, 2), (2, 2)), n_keys=((2, 1), (3, 2)), n_tags=((2, 2), (3, 1)), n_aliases=((1, 1),),
                n_versions=((1, 1),), warm=0.5, outs=(('ok', 3), ('skip', 2)), depth=3,
                ops=dict(comp=5, get=4, set=3, gos=2, many=2, inval=3, tx=0.5, ignore=2, close=0.05, closeall=0.05))),
])
core('C06', ('stale_fin', 'stale'), [
    (4, profile(odd=0.35, delays=((0, 3), (0.3, 1), (5, 0.5)), levels=RC, roles=((None, 1), ('writer', 3), ('reader', 2), ('poller', 1)), n_actors=((2, 2), (3, 3), (4, 1)),
                versions=V2, n_aliases=((1, 2), (2, 1)), ops=dict(tx=4, inval=4))),
    (2, profile(delays=((0, 3), (0.3, 1), (5, 0.5)), levels=RC, roles=((None, 1), ('writer', 3), ('reader', 2), ('poller', 1)), n_actors=((2, 2), (3, 3)),
                versions=V2, faults=1.0, evict_short=True, ops=dict(tx=4, inval=4))),
    (1, profile(levels=RC, line=1.0, roles=((None, 1), ('writer', 3), ('reader', 2)), n_actors=((2, 2), (3, 1)),
                n_reqs=((1, 1),), latency=0)),
    (0.4, profile(big=1.0, levels=RC, roles=((None, 1), ('writer', 3), ('reader', 2)), n_actors=((1, 1), (2, 2)), n_reqs=((1, 2), (2, 1)), n_ops=((2, 1), (4, 2)), latency=0,
                  ops=dict(many=3, inval=2))),
])
core('C07', ('snapshot', 'stale_fin'), [
    (5, profile(levels=RR, roles=((None, 1), ('writer', 4), ('reader', 4), ('poller', 1)), atomic_reads=True,
                n_actors=((2, 2), (3, 3), (4, 1)), versions=V2, n_tags=((1, 3), (2, 2), (3, 1)),
                n_keys=((1, 2), (2, 2)), ops=dict(tx=4, inval=4, clear=0))),
    (2, profile(levels=RR, roles=((None, 1), ('writer', 4), ('reader', 4), ('poller', 1)), atomic_reads=True,
                n_actors=((2, 2), (3, 3)), n_tags=((1, 3), (2, 2)), n_keys=((1, 2), (2, 2)), faults=1.0,
                fault_kinds=('error', 'error_after', 'late', 'partial', 'evict', 'kill'), ops=dict(tx=4, inval=4, clear=0))),
    (1, profile(levels=RR, roles=((None, 1), ('writer', 4), ('reader', 4)), atomic_reads=True, skew=0.5, delays=((1, 1),),
                n_actors=((2, 2), (3, 3)), n_tags=((1, 3), (2, 2)), n_keys=((1, 2), (2, 2)), ops=dict(tx=4, inval=4, clear=0))),
    (1, profile(levels=RR, line=1.0, roles=((None, 1), ('writer', 4), ('reader', 4)), atomic_reads=True, latency=0,
                n_actors=((2, 2), (3, 1)), n_reqs=((1, 1),), n_tags=((1, 3), (2, 2)), n_keys=((1, 2), (2, 2)))),
    (3, profile(levels=RR, roles=(('tightwriter', 3), ('tightreader', 3), ('storer', 2)), atomic_reads=True,
                n_actors=((3, 4), (4, 2), (5, 1)), n_reqs=((1, 4), (2, 1)), n_tags=((1, 4), (2, 1)), latency=0.4,
                n_keys=((1, 1), (2, 2)), sleeps=(0.001, 0.005, 0.02), warm=0.5, torn=0.1, grain=0.05, recover=0)),
    (3, profile(levels=RR, roles=(('tightwriter', 3), ('tightreader', 3), ('storer', 2)), atomic_reads=True,
                n_actors=((3, 4), (4, 2)), n_reqs=((1, 4), (2, 1)), n_tags=((1, 4), (2, 1)), latency=0, n_aliases=((1, 1),),
                n_versions=((1, 1),), stalls=1.0, stall_times=(0.1, 0.6), stall_calls=(4, 6), stall_role='tightreader',
                n_keys=((1, 1), (2, 2)), sleeps=(0.005, 0.05, 0.2), warm=0.5, torn=0, grain=0.05, recover=0)),
    (2, profile(levels=RR, roles=(('chain', 3), ('tightreader', 3), ('storer', 1), ('poller', 1)), atomic_reads=True,
                n_actors=((2, 3), (3, 4)), n_reqs=((1, 3), (2, 1)), n_tags=((1, 4), (2, 1)), latency=0, n_aliases=((1, 1),),
                n_versions=((1, 1),), n_keys=((1, 2), (2, 1)), sleeps=(0.001, 0.005, 0.02), warm=0.5, torn=0, grain=0.7,
                recover=0)),
    (0.4, profile(big=1.0, levels=RR, atomic_reads=True, roles=((None, 1), ('writer', 3), ('reader', 3)), n_actors=((1, 1), (2, 2)), n_reqs=((1, 2), (2, 1)), n_ops=((2, 1), (4, 2)), latency=0,
                  ops=dict(many=3, inval=2, clear=0))),
], known=('overlapping-finishes',))
core('C08', ('delay',), [
    (3, profile(levels=(('READ COMMITTED', 2), ('READ UNCOMMITTED', 1)), delays=((1, 2), (2, 1), (0.2, 1), (30, 1)),
                roles=((None, 1), ('writer', 4), ('reader', 4), ('poller', 1)), n_tags=((1, 3), (2, 2)),
                n_keys=((1, 1), (2, 2)), versions=V2, n_aliases=((1, 2), (2, 1)), sleeps=(0.001, 0.1, 0.5, 1.0), ops=dict(tx=4, sleep=2, clear=0))),
    (3, profile(levels=RR, delays=((1, 2), (2, 1), (0.2, 1), (30, 1)), atomic_reads=True,
                roles=((None, 1), ('writer', 4), ('reader', 4), ('poller', 1)), n_tags=((1, 3), (2, 2)),
                n_keys=((1, 1), (2, 2)), versions=V2, sleeps=(0.001, 0.1, 0.5, 1.0), ops=dict(tx=4, sleep=2, clear=0))),
    (2, profile(levels=RR, delays=((30, 2), (8, 1), (3, 1)), atomic_reads=True, n_reqs=((1, 1), (2, 2), (3, 2)),
                roles=((None, 1), ('writer', 4), ('reader', 4), ('storer', 4)), n_tags=((1, 3), (2, 2)),
                n_keys=((1, 1), (2, 2)), sleeps=(0.1, 1.0, 5.0, 7.0, 9.0, 20.0), ops=dict(tx=4, sleep=4, clear=0))),
    (1, profile(delays=((1, 2), (0.2, 1)), atomic_reads=True, faults=1.0,
                fault_kinds=('error', 'error_after', 'late', 'partial', 'evict', 'kill'),
                roles=((None, 1), ('writer', 4), ('reader', 4)), sleeps=(0.001, 0.1, 0.5, 1.0), ops=dict(tx=4, sleep=2, clear=0))),
], known=('overlapping-finishes',))
core('C09', ('refused', 'recover'), [
    (4, profile(levels=RR, delays=((0, 3), (0.3, 1), (2, 1)), atomic_reads=True, recover=0.5,
                roles=((None, 1), ('writer', 3), ('reader', 4)), n_tags=((1, 2), (2, 2), (3, 1)), versions=V2,
                sleeps=(0.001, 0.1, 0.5, 3.0, 8.0), ops=dict(tx=4, sleep=2))),
    (3, profile(levels=RR, delays=((0, 3), (0.3, 1)), atomic_reads=True, recover=1.0, faults=1.0, evict_short=True,
                roles=((None, 1), ('writer', 3), ('reader', 4)), n_tags=((1, 2), (2, 2)),
                sleeps=(0.001, 0.1, 0.5, 3.0, 8.0), ops=dict(tx=4, sleep=2))),
    (1, profile(levels=RR, delays=((0, 3), (1, 1)), atomic_reads=True, recover=0.5, skew=0.4,
                roles=((None, 1), ('writer', 3), ('reader', 4)), ops=dict(tx=4, sleep=2))),
    (1, profile(recover=0.3)),
], known=('overlapping-release',))
core('C10', ('tx', 'txexc', 'stale_fin', 'lost', 'refused', 'recover'), [
    (4, profile(delays=((0, 3), (0.3, 1), (5, 0.5)), depth=4, n_actors=((1, 2), (2, 3)), n_procs=((1, 3), (2, 1)), recover=0.3,
                tx_out=(('ok', 4), ('raise', 2), ('exit', 1)), versions=V2, n_aliases=((1, 2), (2, 1)), atomic_reads=True,
                ops=dict(tx=8, inval=4, set=3, xfinish=0.4, flush=0.4, **{'try': 2}))),
    (2, profile(delays=((0, 3), (0.3, 1), (5, 0.5)), depth=4, n_actors=((1, 2), (2, 3)), n_procs=((1, 3), (2, 1)), recover=0.5, faults=1.0, atomic_reads=True,
                fault_kinds=('error', 'error_after', 'late', 'partial'),
                ops=dict(tx=8, inval=4, set=3, xfinish=0.4, flush=0.4, **{'try': 2}))),
])
core('C11', ('swallowed', 'recover', 'wrong', 'stale', 'stale_inh', 'stale_fin', 'tx'), [
    (4, profile(faults=1.0, recover=1.0, evict_short=True, fault_p=(0.03, 0.1, 0.25), versions=V2, payloads=VARIED,
                n_aliases=((1, 1), (2, 1)), ops=dict(tx=3, close=0.4, closeall=0.3, **{'try': 1.5}))),
    (1, profile(faults=1.0, recover=1.0, evict_short=True, fault_kinds=('kill', 'late', 'flush'),
                delays=((0, 1), (0.5, 1)), ops=dict(tx=3))),
    (1, profile(faults=1.0, recover=1.0, fault_kinds=('error', 'error_after'), fault_p=(0.3, 0.6), ops=dict(tx=3))),
])
core('C12', ('expired', 'lost'), [
    (3, profile(ttls=((5, 3), (60, 2), (1, 2), (3600, 1), (0, 0.5), (90000, 0.5)), recover=0,
                sleeps=(0.01, 1.0, 4.99, 5.01, 30.0, 61.0, 3000.0), max_sleep_tx=2.0, versions=V2,
                plain_forms=(('native', 2), ('notags', 2)),
                ops=dict(sleep=6, set=5, gos=4, inval=0.8, raw=0.6, tx=0.7, delete=0.1, clear=0))),
    (1, profile(ttls=((5, 3), (60, 2), (1, 2), (3600, 1)), skew=1000.0, jump_ops=1.0, recover=0,
                sleeps=(0.01, 1.0, 4.99, 5.01, 30.0, 61.0), ops=dict(sleep=6, set=5, gos=4, inval=0.8, tx=0.5))),
    (1, profile(ttls=((5, 3), (60, 2)), faults=1.0, fault_kinds=('error', 'error_after', 'late', 'evict'), recover=0,
                sleeps=(0.01, 1.0, 4.99, 5.01, 61.0), ops=dict(sleep=6, set=5, gos=4))),
])
core('C13', ('stale', 'stale_inh', 'stale_fin', 'lost', 'wrong', 'refused', 'snapshot'), [
    (2, profile(payloads=SOME_FALSY, depth=4, versions=((None, 1), (7, 2), (3, 2)), n_versions=((1, 1), (2, 2)), odd=0.35,
                n_keys=((2, 1), (3, 2), (4, 1)), n_actors=((1, 2), (2, 2)), n_aliases=((1, 2), (2, 1)),
                aliases=(('default', 2), ('a1', 1), ('a2', 1)), atomic_reads=True,
                roles=((None, 2), ('derived', 1)), ops=dict(comp=6, gos=5, many=4, inval=3, tx=0.7, clear=0))),
    (4, profile(odd=0.35, delays=((0, 3), (0.3, 1), (5, 0.5)), versions=((None, 2), (7, 1), (3, 1), (0, 0.5)), n_versions=((2, 2), (3, 1)), n_aliases=((1, 1), (2, 2), (3, 1)),
                aliases=(('default', 2), ('proxy', 0.5), ('a1', 1), ('a2', 1)), n_keys=((1, 2), (2, 2)), atomic_reads=True,
                n_tags=((1, 2), (2, 2)), mixed_levels=0.3, ops=dict(tx=3, clear=0.05, native=0.4))),
    (1, profile(delays=((0, 3), (0.3, 1), (5, 0.5)), versions=((None, 2), (7, 1), (0, 0.5)), n_versions=((2, 2),), n_aliases=((1, 1), (2, 2)), levels=RR, atomic_reads=True,
                aliases=(('default', 2), ('a1', 1), ('a2', 1)), n_keys=((1, 2), (2, 2)), n_tags=((1, 2), (2, 2)),
                roles=((None, 1), ('writer', 2), ('reader', 2)), ops=dict(tx=4))),
])
core('C14', ('batch', 'trips', 'stale', 'stale_inh', 'lost', 'wrong'), [
    (4, profile(n_keys=((2, 1), (3, 2), (4, 2), (5, 2)), n_tags=((2, 1), (3, 2), (4, 2)), versions=V2, payloads=VARIED,
                ops=dict(many=6, cmp=5, set=4, inval=2, raw=0.5, tx=0.7, delete=0.4))),
    (1, profile(n_keys=((3, 2), (4, 2), (5, 2)), n_tags=((2, 1), (3, 2), (4, 2)), faults=1.0,
                fault_kinds=('evict', 'flush', 'kill'), evict_short=True, ops=dict(many=6, cmp=5, set=4, inval=2))),
    (0.4, profile(big=1.0, versions=V2, n_actors=((1, 1), (2, 2)), n_reqs=((1, 2), (2, 1)), n_ops=((2, 1), (4, 2)), latency=0,
                  ops=dict(many=3, inval=2))),
])
core('C15', ('stale', 'stale_inh', 'stale_fin', 'lost'), [
    (4, profile(delays=((0, 3), (0.3, 1), (5, 0.5)), binding=(('django', 1),), models=True, n_aliases=((1, 1), (2, 2), (3, 1)), n_tags=((2, 1), (3, 2)), recover=0,
                n_keys=((2, 1), (3, 2)), versions=V2, aliases=(('default', 4), ('proxy', 1), ('a1', 2), ('a2', 2)),
                ops=dict(model=6, inval=0.3, set=3, gos=3, tx=1.5, clear=0))),
    (1, profile(delays=((0, 3), (0.3, 1), (5, 0.5)), binding=(('django', 1),), models=True, n_aliases=((1, 1), (2, 2)), n_tags=((2, 1), (3, 2)), recover=0,
                aliases=(('default', 4), ('proxy', 1), ('a1', 2), ('a2', 2)), faults=1.0,
                fault_kinds=('error', 'error_after', 'late', 'evict', 'kill'),
                ops=dict(model=6, inval=0.3, set=3, gos=3, tx=1.5, clear=0))),
    (1, profile(binding=(('django', 1),), models=True, n_aliases=((1, 1), (2, 2)), n_tags=((2, 1), (3, 2)), recover=0,
                levels=RR, atomic_reads=True, ops=dict(model=6, inval=0.3, set=3, gos=3, tx=3, clear=0))),
])


from .webgen import web  # noqa

REAL_WEB = ('cache_dependencies/*, django_cache_dependencies/* (middleware, decorators, template tags), Django request '
            'handling and template engine')
WEB_RULE = ('One evaluation is one simulated run of a generated site (templates, views, middleware) under a seeded schedule. '
            'Non-trivial: several tasks interleaved and something was served from the cache. Distinct: different sequence '
            'of (task, backend operation or frame).')


def webcheck(pid, classes, profiles, **kw):
    CHECKS[pid] = dict(world='web', classes=tuple(classes) + COMMON, profiles=profiles, real=REAL_WEB, rule=WEB_RULE, **kw)


webcheck('C16', ('page_stale', 'page_broken', 'page_prevented', 'page_expired', 'page_wrong', 'page_uncacheable', 'page_lost', 'live',
                 'garbled'), [
    (5, web(ops=dict(render=0.3))),
    (2, web(ops=dict(render=0.3), faults=1.0)),
    (1, web(ops=dict(render=0.3), line=1.0, n_actors=((2, 2), (3, 1)), n_reqs=((1, 1),), n_ops=((1, 1), (2, 1)), latency=0)),
    (1, web(n_actors=((1, 3), (2, 1)), n_reqs=((1, 2), (2, 1)), n_ops=((5, 1), (8, 2)), latency=0, fail=0.1, prevent=0.1, bad=0.1,
            sleeps=(6.0, 61.0, 601.0, 1100.0), ops=dict(req=6, render=0, inval=0.7, sleep=3))),
    (2, web(rounds=1.0, ops=dict(render=0.2), kinds=(('mw', 1), ('deco', 3)), deco_tl=0.6, n_procs=((1, 1),), fail=0.1, bad=0.1,
            n_tags=((2, 1), (3, 2)), n_views=((1, 3), (2, 1)))),
])
webcheck('C17', ('frag_stale', 'frag_broken', 'frag_prevented', 'frag_expired', 'frag_wrong', 'frag_lost', 'dynamic', 'live', 'garbled'), [
    (5, web(pages=0.15, prevent=0.5, fail=0.5)),
    (2, web(pages=0.15, faults=1.0)),
    (1, web(pages=0, line=1.0, n_actors=((2, 2), (3, 1)), n_reqs=((1, 1),), n_ops=((1, 1), (2, 1)), latency=0)),
    (2, web(pages=0, bad=0.5, fail=0.5, prevent=0.6, n_actors=((1, 3), (2, 1)), n_reqs=((1, 2), (2, 1)), n_ops=((5, 1), (8, 2)), latency=0,
            n_tags=((2, 1), (3, 2)), levels=(('READ COMMITTED', 1),), ops=dict(render=6, inval=2, sleep=0.3))),
    (1, web(pages=0, bad=0, fail=1.0, exits=5, prevent=0.1, n_actors=((1, 3), (2, 1)), n_reqs=((1, 2), (2, 1)), n_ops=((6, 1), (9, 2)),
            latency=0, rounds=0, n_tags=((2, 1), (3, 2)), n_templates=((1, 1), (2, 2)), levels=(('READ COMMITTED', 1),),
            ops=dict(render=6, inval=2, sleep=0.1))),
    (1, web(rounds=1.0, pages=0.1, n_procs=((1, 1),), n_tags=((2, 1), (3, 2)), n_templates=((1, 2), (2, 1)))),
])


from . import filew  # noqa

CHECKS['C18'] = dict(
    world='file', classes=('file_wrong', 'file_old', 'file_expired', 'file_lost', 'file_raised', 'file_stray', 'file_partial',
                           'stuck', 'exception'),
    profiles=[
        (3, filew.profile()),
        (3, filew.profile(faults=1.0)),
        (1, filew.profile(faults=1.0, fault_kinds=('kill',), fault_p=(0.02, 0.05))),
        (1, filew.profile(ops=dict(wipe=0.7))),
    ],
    real='django_cache_dependencies/backends.py and the file backend of Django, on a real directory in memory',
    stub='system calls are interposed (scheduling, errors, short and cut writes, death), clock, thread scheduler, names of '
         'temporary files',
    rule='One evaluation is one simulated run of generated clients of the file backend under a seeded schedule of system '
         'calls. Non-trivial: several tasks interleaved and something was read. Distinct: different sequence of (task, '
         'system call).')


from . import confine  # noqa

CHECKS['C19'] = dict(
    world='confine', classes=('confine', 'identity', 'stale', 'stale_inh', 'stale_fin', 'tx', 'lost', 'refused') + COMMON,
    profiles=[
        (4, confine.profile()),
        (2, confine.profile(families=1.0, levels=RR)),
        (0.2, confine.profile(n_ops=((1, 1), (2, 1)), n_reqs=((1, 1),), latency=0, families=0.7, ops=dict(burst=30, hold=0, sleep=0))),
        (1, confine.profile(line=1.0, latency=0, n_actors=((2, 3), (3, 1)), n_reqs=((1, 1),))),
    ],
    rule='One evaluation is one simulated run of generated threads, processes and forked processes, which use their own '
         'caches and the transaction and relation managers of each other, under a seeded schedule. Non-trivial and '
         'distinct: as for the core world.')
