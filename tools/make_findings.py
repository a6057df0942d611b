"""Writes known_findings.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = []


def op(prop, kid, what, replay):
    F.append(dict(property=prop, id=kid, status='open', what=what, replay=replay))


def fixed(props, commit, what):
    for p in props.split():
        F.append(dict(property=p, id='%s-%s' % (p, commit), status='fixed', commit=commit,
                      what='fixed: property=%s %s %s' % (p, commit, what)))


op('C07', 'overlapping-finishes', 'two transactions which invalidated the same tag finish at the same time: each writes the single '
   'released record of the tag, and the record with the earlier time of the end can win, so that a value stored by a '
   'transaction which began between both ends stays readable', 'known/C07-overlapping-finishes.json')
op('C08', 'overlapping-finishes', 'the same race with DELAY: the released record with the earlier time of the end wins, and a value '
   'stored by a transaction which began within DELAY after the later finish stays readable',
   'known/C08-overlapping-finishes.json')
op('C09', 'overlapping-release', 'two transactions which invalidated the same tag overlap and the one which acquired the tag first is '
   'the last to release it: the only acquired record and the only released record belong to different sessions, so the '
   'stores of other sessions are refused for up to 5 seconds though both transactions are finished',
   'known/C09-overlapping-release.json')

fixed('C04', '1248808', 'tags of an unfinished cache node were attached to the next computation of the key')
fixed('C07', '4d63ba7', 'own acquired state hid the released state of another session')
fixed('C08', '289c608', 'next transaction of the releasing session ignored the replication delay')
fixed('C07', '935c115', 'lock acquired while the versions of new tags were being created was not noticed')
fixed('C06 C07', 'ec56f88', 'values stored by a transaction itself or without seeing its lock outlived its finish')
fixed('C10 C11', '093be70', 'failure of the backend left the thread in an unfinished transaction or relation')
fixed('C19', '09b5d08', 'flush() did not validate thread sharing')
fixed('C10', 'f12bddd', 'cache_transaction_all did not finish on exception and could not decorate with arguments')
fixed('C05', '452825e', 'failed callback of get_or_set_callback left its computation open')
fixed('C04', 'e2d0038', 'value recreated instead of a cached None lost its tags')
fixed('C14', '72ec511', 'get_many of an iterator read nothing')
fixed('C04', '1541624', 'ignore_descendants setting had no effect')
fixed('C19', '8c49123', 'forked processes shared the session id')
fixed('C17', '96b5998', 'nested cache_tagging replaced the tags of the ancestor')
fixed('C17', '6e7f0f9', 'empty fragment was cached without the tags of its descendants')
fixed('C17', 'be4afb9', 'failed rendering left the fragment open')
fixed('C17', 'd5ca4d5', 'cache_tagging_prevent in an inner scope had no effect')
fixed('C16', '5a30708', 'UpdateCacheMiddleware used alone raised')
fixed('C16', '829e599', 'cached page missed the tags of nested caches')
fixed('C18', 'd5602c3', 'FileBasedCache could not read the files which it had written')
fixed('C10 C19', '5b7bb25', 'function decorated by cache.transaction raised in other threads')
fixed('C04', '3e1de89', 'dependencies collected by an unfinished computation before it was attached to a new ancestor did not reach it')
fixed('C16', '57b12e1', 'HEAD request failed with 500 when the list of headers disappeared between two lookups')
fixed('C16', '39125b5', 'page stored under another key than the missed one, or stored twice, lost the tags of nested caches')

with open(os.path.join(HERE, 'known_findings.json'), 'w') as f:
    json.dump(dict(findings=F), f, indent=1)
    f.write('\n')
