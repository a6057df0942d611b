import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over.split(),text=text),why_tests_cant=why,
      anchors=dict(files=files.split(),mechanism=[dict(name=a,where=b) for a,b in mech],
      state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(observe),hook_needed=hook)))
CC='cache_dependencies/'; DJ='django_cache_dependencies/'
p('C01','Tag invalidation is complete and final',
 "Once a call that invalidates a set of tags has returned, no read by any thread, process or host ever again returns a value that was stored before that call was made and that carries one of those tags, given directly or inherited from a cached value used to compute it. This holds for single and batch reads alike and forever: re-creation of the tag by later stores, eviction of any backend item, a cache restart, clock skew or jumps, and backend writes that failed or arrive late never make such a value readable again. An invalidation whose backend call failed may leave the value readable, but never silently: the caller gets the error.",
 'schedules histories fault_sequences inputs','All interleavings of stores, reads and invalidations by several threads/processes/hosts sharing one cache server; all tag sets, nesting shapes, TTLs, evictions, restarts, clock skews and failed/late backend calls; every transaction isolation level, inside and outside of transactions.',
 'The tests run one thread against one locmem/mock cache with fixed tags; they never interleave two writers of one tag version, never evict a tag version, and never let a failed call apply late.',
 CC+'dependencies.py '+CC+'cache.py '+CC+'tagging.py '+CC+'utils.py '+CC+'defer.py',
 [('unique version token per tag incarnation',CC+'utils.py generate_tag_version'),('every entry stores the versions of all its tags, validated on read',CC+'dependencies.py TagsDependency.evaluate/validate'),('invalidation deletes the version tokens',CC+'dependencies.py TagsDependency.invalidate')],
 [('tag version item','current incarnation of a tag','shared cache backend'),('packed entry','value plus dependency with tag versions','shared cache backend')],
 ['cache.get','cache.get_many','cache.get_or_set_callback','cache.invalidate_tags'])
p('C02','Stored values stay readable until something they depend on changes',
 "A value whose store was accepted stays readable, by single and batch reads from any thread or process, until its timeout elapses, it is overwritten or deleted, a tag it carries or inherited is invalidated (including by a finishing transaction), or the backend loses data. Invalidation of other tags, other versions or other aliases, stores of other values that share its tags, and transactions that did not invalidate its tags never make it unreadable. The only exception is a store that overlaps another store which is introducing the same, not yet existing tag.",
 'schedules histories inputs','All histories of stores, invalidations, transactions and reads without data loss in the backend; all tag sets (overlapping, shared, empty), nesting shapes and interleavings.',
 'Tests assert hits for a handful of literals in one thread; an implementation that regenerates shared versions, over-invalidates or refuses stores needlessly passes most of them.',
 CC+'dependencies.py '+CC+'cache.py '+CC+'locks.py '+CC+'defer.py',
 [('existing tag versions are reused, only missing ones are created',CC+'dependencies.py TagsDependency.evaluate'),('per-tag comparison on read',CC+'dependencies.py TagsDependency.validate')],
 observe=['cache.get','cache.get_many'])
p('C03','A read returns exactly a value that was stored under that key',
 "Every hit returns, unchanged and with its original type, a value that some completed or in-flight store (or native write) put under that very key, version and alias; a miss returns the caller's default, and internal wrapping is never exposed. Per key the reads and writes of all clients are linearizable as a register that may additionally lose its content (miss) at any time, so an overwritten value never comes back. A computed-and-cached call (get-or-set) returns the cached value on a hit without running the callback and exactly the callback's result on a miss, whether or not the store succeeds or is refused.",
 'schedules histories inputs fault_sequences','All interleavings of single/batch reads and writes of tagged, untagged and natively stored values (including falsy values, None, dicts resembling the internal format) by concurrent clients, with failing, late and lost backend calls.',
 'Tests check a few values sequentially; nothing checks concurrent histories or values that look like misses.',
 CC+'cache.py '+CC+'tagging.py '+CC+'defer.py',
 [('packing/unpacking of values',CC+'cache.py CacheWrapper._pack_data/_unpack_data'),('native call form recognised by argument type',CC+'tagging.py CacheTagging.set')],
 observe=['cache.get','cache.get_many','cache.get_or_set_callback','cache.set'])
p('C04','A composite value inherits the tags of every cached value used in it',
 "When, between a missed single read (or the start of get-or-set) of a key and the store of that key, the same thread hits other cached values of the same cache alias and version, or stores others whose own computation began meanwhile (or that needed none), the stored value carries all the tags of all of them, transitively to any depth, whether they were hits or were recomputed, whether read one by one or in a batch, and whatever unfinished, failed or repeated computations preceded. Therefore invalidating any tag of any descendant makes every such ancestor unreadable. Reads made with the documented opt-outs do not begin a computation and are exempt.",
 'programs histories schedules inputs','All nesting trees and orders of get/get_many/set/get-or-set/abort inside computations (shared children, diamond shapes, interleaved and retried computations, exceptions), with other threads invalidating, storing and evicting meanwhile.',
 'Tests cover one two-level nesting; the relation bookkeeping is a mutable per-thread structure whose failures need particular multi-step sequences.',
 CC+'relations.py '+CC+'cache.py '+CC+'tagging.py '+CC+'dependencies.py',
 [('per-thread relation tree, node per computation in progress',CC+'relations.py RelationManager/CacheNode'),('begin on read, finish on hit/store propagates the dependency to ancestors',CC+'cache.py begin/finish/set')],
 [('current node','innermost computation in progress','RelationManager._current')],['cache.get','cache.set','cache.get_many','cache.get_or_set_callback'])
p('C05','Computations of other threads, requests and aliases never leak in',
 "The tags an entry carries are exactly those given at its store plus those of cached values used, in the same thread and on the same alias, while it was being computed; concurrent computations of other threads, other aliases and earlier requests never add or remove any. A computation that ended by a store, a hit, an abort or an exception out of a get-or-set callback, and everything open when the cache is closed at the end of a request, even if closing fails, has no influence on values computed afterwards.",
 'schedules histories programs fault_sequences','All interleavings of computations in many threads and requests reusing the same worker thread, with aborts, exceptions, backend failures and close at arbitrary points.',
 'Tests never run two computations concurrently nor reuse a thread for a second request after an aborted one.',
 CC+'relations.py '+CC+'cache.py '+DJ+'__init__.py',
 [('thread-local cache instances with own relation manager',DJ+'__init__.py CacheCollection'),('close clears relations and transactions',CC+'cache.py CacheWrapper.close; '+DJ+'__init__.py close_caches'),('abort on failed callback',CC+'tagging.py get_or_set_callback')],
 observe=['cache.get after invalidating foreign tags','cache.close','request_finished signal'])
p('C06','READ COMMITTED: finishing a transaction drops what was cached before the finish',
 "With isolation level READ COMMITTED, when the outermost cache transaction finishes, by normal exit, exception, decorator, middleware, explicit call or flush, and the call returns, every value that was stored by anyone before the finish began and carries a tag invalidated anywhere inside the transaction, including in nested ones and for any version, is unreadable from then on. It holds for commit and for rollback of the database transaction, so a value computed from data that was uncommitted or about to be replaced does not outlive it. Before the finish, each invalidation is also effective immediately.",
 'schedules histories programs','All interleavings of transactions (nested, committed, rolled back, raising) with readers in other sessions and with the transaction\'s own caching; database at read-committed visibility.',
 'Existing tests use mocks for the lock and dependency, and never a second session caching in the window between invalidation and commit.',
 CC+'transaction.py '+CC+'locks.py '+CC+'cache.py '+DJ+'middleware.py',
 [('tags collected per version in the transaction and invalidated again on finish',CC+'transaction.py Transaction.finish; '+CC+'locks.py ReadCommittedDependencyLock.release'),('savepoints propagate to the parent',CC+'transaction.py SavePoint.add_dependency')],
 observe=['cache.get after cache.transaction.finish'])
p('C07','REPEATABLE READ and SERIALIZABLE: no stale snapshot is ever cached as current',
 "With isolation level REPEATABLE READ or SERIALIZABLE, while a transaction that is the only one to have invalidated a tag is unfinished, a value carrying that tag that another session stores after the invalidation is not readable, and after it finished no session whose own transaction started before that finish can. Hence, after the finish returned, a readable value carrying the tag was computed from data at least as new as what that transaction committed, and values computed from its uncommitted data disappear when it ends, be it commit, rollback or exception. Transactions are assumed to be shorter than the lock lifetime (5 seconds), multi-key backend reads to be atomic, and the records not to be evicted.",
 'schedules histories','All interleavings of invalidating transactions with snapshot readers that began before, during or after, with several concurrent invalidators of the same tag, first introduction of tags, nested values, rollbacks; against a multi-version database model with snapshot visibility.',
 'The fence is a protocol between several sessions through shared records; tests check each record class with mocks in one thread.',
 CC+'dependencies.py '+CC+'locks.py '+CC+'transaction.py',
 [('acquire/release records compared with start and end times',CC+'dependencies.py AcquiredTagState/ReleasedTagState.is_locked'),('store refused when locked',CC+'cache.py CacheWrapper.set'),('re-check after creating versions; invalidate again on release',CC+'dependencies.py TagsDependency.evaluate; '+CC+'locks.py RepeatableReadDependencyLock.release')],
 [('acquired_/released_ records','who holds or held a tag and until when','shared cache backend')],['cache.get after finish'])
p('C08','Configured replication delay keeps lagging replica data out of the cache',
 "When a cache alias is configured with a delay and database replicas lag behind the master by less than it, values computed from a lagging replica and stored around the finish of a transaction that invalidated their tags do not stay readable. At READ UNCOMMITTED and READ COMMITTED the tags are invalidated once more when the delay has elapsed after the finish, so nothing stored earlier survives that moment; at REPEATABLE READ and SERIALIZABLE no session, including the finishing one in its next transactions, can store a value carrying the tag from a transaction started within the delay after the finish.",
 'schedules histories configurations','All delays, replica lags below the delay, isolation levels, interleavings of readers on replicas with finishing transactions, timers firing in any order relative to other work.',
 'Tests replace the timer by a mock; no test has simulated time, a lagging replica or a second session.',
 CC+'locks.py '+CC+'dependencies.py '+DJ+'__init__.py',
 [('timer started on release invalidates again',CC+'locks.py ReadUncommittedDependencyLock._release_dependency_delayed'),('delay widens the fence',CC+'dependencies.py ReleasedTagState.is_locked')],
 observe=['cache.get after the delay'])
p('C09','Locks never block caching for longer than needed',
 "At REPEATABLE READ and SERIALIZABLE a session whose transaction started after all transactions that invalidated a tag finished (plus the configured delay), and a transaction that itself invalidated the tag and is the only one doing so, can cache values carrying that tag: the store is accepted. Tags not invalidated by anyone are never locked. If a session dies or its backend fails while holding tags, caching of those tags by everyone resumes within a bounded time (the lock lifetime plus delay) without any intervention, and reads are never blocked at all.",
 'schedules crash_points fault_sequences','All schedules of transactions and stores, process kills at any backend operation inside a transaction, lost release records, followed by fault-free operation.',
 'Bounded liveness after crashes needs simulated time and crashes, which no test has.',
 CC+'dependencies.py '+CC+'locks.py '+CC+'transaction.py',
 [('records expire',CC+'dependencies.py TAG_STATE_TIMEOUT'),('own session exempt; started-after test',CC+'dependencies.py is_locked')],
 observe=['cache.set followed by cache.get'])
p('C10','Transactions nest, always end with their scope, and leave nothing behind',
 "Begin/finish pairs nest: inner scopes (context manager, decorator, explicit calls) do not end the outer transaction, an inner scope's invalidations take part in the outer finish whatever happened to the inner scope, and only the outermost finish, or a flush of all open scopes, ends it. A scope left by an exception of any kind is finished exactly like one left normally, the exception propagates unchanged and a decorated function's result is returned. Afterwards, even when the finish itself failed, the thread is outside of any transaction, a superfluous finish or flush is harmless, and a decorated function works from every thread.",
 'programs histories fault_sequences','All nesting programs of scopes in all API forms with exceptions at any point, backend failures during finish, flush at any depth and in several threads and aliases.',
 'Tests cover begin/finish pairs with mocks, one level of savepoints and no failing finish.',
 CC+'transaction.py '+DJ+'decorators.py '+DJ+'middleware.py '+CC+'tagging.py',
 [('transaction stack',CC+'transaction.py TransactionManager.begin/finish/flush'),('decorators and middleware',DJ+'decorators.py cache_transaction*, '+DJ+'middleware.py TransactionMiddleware')],
 observe=['entries readable after the scopes ended','cache.transaction.current()'])
p('C11','Backend faults and crashes surface as errors or misses, and service recovers',
 "When a backend call fails, times out, is applied late or partially, or when the cache server restarts or a client is killed at any point, callers see the backend's own error or a miss, never a wrong or stale value and never an unrelated error, and values written afterwards are correct. Once faults stop, within one request (closing the cache) every thread is able to cache and read back again with correct dependencies, and no transaction or computation of a failed request is still open.",
 'fault_sequences crash_points schedules','All placements of backend errors before/after applying, delayed application, partial multi-key operations, evictions, full flushes and client kills inside every API call; all isolation levels.',
 'No test injects any fault.',
 CC+'cache.py '+CC+'transaction.py '+CC+'relations.py '+DJ+'__init__.py',
 [('state unwound on failure',CC+'transaction.py TransactionManager.finish; '+CC+'cache.py CacheWrapper.close/set'),('close at end of every request',DJ+'__init__.py close_caches')],
 observe=['exceptions raised by API calls','reads after recovery'])
p('C12','Timeouts are honoured',
 "A value stored with a timeout of T seconds is readable until T has elapsed and never afterwards, for every call form (tags or dependency object given, native positional form, keyword form, get-or-set, template fragment), and the timeout of one value is never applied to another. A value's dependency on its tags never outlives or shortens its own timeout as long as the tags' versions are kept (24 hours without being recreated). Storing, reading or invalidating does not extend a value's life.",
 'inputs histories schedules','All timeouts and call forms under a simulated clock, in any interleaving with other stores of the same tags.',
 'Tests do not advance time beyond a second and check few call forms.',
 CC+'cache.py '+CC+'tagging.py '+CC+'dependencies.py',
 [('timeout passed to the backend',CC+'cache.py CacheWrapper.set; '+CC+'tagging.py CacheTagging.set')],
 observe=['cache.get at simulated times'])
p('C13','Versions and aliases are separate namespaces',
 "Values, tags, transactions and locks of one cache alias, and values and tags of one key version, never affect those of another: a value stored under one version or alias is not returned for another, and invalidating a tag for one version or alias neither invalidates nor blocks values of another. A transaction invalidating tags under several versions finishes all of them. Every form of read, store, and invalidation applies the version it is given to both the data and its tags.",
 'inputs histories schedules configurations','All mixes of versions and aliases sharing one backend process, same key and tag names, nested and concurrent.',
 'Tests use versions only in isolated unit calls with mocks.',
 CC+'cache.py '+CC+'tagging.py '+CC+'transaction.py '+CC+'dependencies.py '+CC+'relations.py '+DJ+'__init__.py',
 [('version threaded through every call',CC+'cache.py'),('dependencies grouped per version',CC+'transaction.py Transaction._dependencies; '+CC+'relations.py CacheNode._dependencies')],
 observe=['cache.get(version=)','cache.invalidate_tags(version=)'])
p('C14','A batch read equals the individual reads, at a bounded number of round trips',
 "Reading many keys in one call returns exactly the keys, with exactly the values, that individual reads at that moment would return: invalidated or missing ones are absent, and one invalid entry never hides or reveals another; any iterable of keys is accepted. Its effect on the dependencies of the surrounding computation equals that of the individual hits. The number of backend round trips does not grow with the number of keys or tags, and a single read needs a bounded number too.",
 'inputs histories schedules','All key sets (hits, misses, invalid, untagged, natively stored, duplicates), tag overlaps and concurrent modifications.',
 'Tests check one literal batch; aggregation of deferred reads depends on the combination of entries.',
 CC+'cache.py '+CC+'defer.py '+CC+'dependencies.py',
 [('aggregation of tag lookups into one multi-get',CC+'defer.py Deferred/GetManyDeferredIterator'),('per-entry error collection',CC+'dependencies.py CompositeDependency.validate')],
 observe=['cache.get_many','backend operation log'])
p('C15','Saving or deleting a registered model invalidates its tags',
 "After the save or delete of an instance of a model registered with a tag function, no value that carries one of the tags the function gives for that instance and was stored before is readable any more, on the alias given at registration (the default one if none). Inside a cache transaction this also covers values that were stored between the model operation and the end of the transaction. Every registered model, handler and alias combination is served independently, and all forms of tag functions (of the instance only or of the signal arguments; returning one tag or any collection) work.",
 'histories schedules inputs programs','All histories of creating, saving and deleting model instances from several threads, interleaved with caching of values derived from them, with several registrations and aliases, in and out of transactions.',
 'Existing tests save one model once in a single thread.',
 DJ+'__init__.py '+CC+'tagging.py '+CC+'transaction.py',
 [('post_save/pre_delete handlers',DJ+'__init__.py CacheRegistry.register/_clear_cached')],
 observe=['cache.get after Model.save()/delete()'])
p('C16','Cached pages are never stale and never served to the wrong request',
 "A page served from the cache by the page-caching middleware or view decorator was rendered for the same URL, method compatibility and values of the headers it varies on (a steady list per URL), and after all tags it depends on (given to the decorator, collected from fragments, and of every nested cached value) were last invalidated. Only successful, cacheable GET and HEAD responses are stored; a page whose rendering asked to prevent caching or whose max-age is zero is rendered afresh for every request. Requests in concurrent threads never receive each other's pages, and a cacheable page is really served from the cache while nothing changes.",
 'schedules histories inputs configurations','All sequences and interleavings of requests (methods, Vary headers, URLs, status codes, fragments hit or missed) with data changes and evictions of any cache item.',
 'The existing tests request one URL twice; staleness needs combinations of header-list entry, page entries per variant, and nested fragments.',
 DJ+'middleware.py '+DJ+'decorators.py '+DJ+'utils.py '+CC+'relations.py',
 [('page and header list stored with tags',DJ+'middleware.py UpdateCacheMiddleware.process_response; '+DJ+'utils.py learn_cache_key'),('lookup',DJ+'middleware.py FetchFromCacheMiddleware.process_request')],
 observe=['HTTP responses'])
p('C17','Cached template fragments are always as fresh as their tags and parts',
 "A rendered template never contains a cached fragment that was rendered before the last completed invalidation of a tag the fragment depends on: its own tags, tags added while it was rendered, and those of fragments and cached values nested in it, to any depth. Caching prevention inside a fragment prevents caching of it, of its ancestors and of the page, and of nothing else; a failing rendering, also by unusable arguments, stores nothing and does not disturb later ones. A fragment is not rendered again while nothing it depends on changes. Dynamic (nocache) regions of a cached fragment declared so, also of those nested in it, are evaluated for every rendering with that rendering's own context.",
 'programs schedules histories inputs','All nestings of fragments (in loops, conditions, includes), tags, timeouts, prevention and nocache regions, rendered concurrently with invalidations and evictions.',
 'Existing tests render a few fixed templates sequentially.',
 DJ+'templatetags/cache_tagging_tags.py '+CC+'nocache.py '+CC+'relations.py',
 [('fragment node',DJ+'templatetags/cache_tagging_tags.py CacheNode.render'),('nocache handler',CC+'nocache.py NoCache.handle')],
 observe=['Template.render output'])
p('C18','The file backend is atomic under concurrency, crashes and disk faults',
 "With the file-based backend every read returns a miss or one complete, unexpired value that was stored under that key, whatever other threads or processes are writing, culling or deleting, and whatever point a writer was killed at or a write was cut short, torn or refused by the disk. A failed write raises nothing, keeps the previous or no value and leaves no partial value or stray file behind, except for a killed writer's temporary file, which is never read. A store that returned normally without any disk fault is readable by all processes until expiry, overwrite, delete or culling, and a value past its timeout is never returned.",
 'schedules crash_points fault_sequences inputs','All interleavings of readers/writers at file-system call granularity, all crash points, errno injections (ENOSPC, EIO, EACCES) and short writes, all values and timeouts.',
 'There is no test of this backend at all.',
 DJ+'backends.py',
 [('temporary file plus rename',DJ+'backends.py FileBasedCache.set')],
 observe=['FileBasedCache.get/has_key/set/delete','directory listing'])
p('C19','Per-thread confinement and unique session identity',
 "Each thread gets its own cache object per alias, always the same one and over its own connection to the backend (work delayed to another thread uses the connection of that thread), whose transaction and relation state is unaffected by other threads; using the transaction manager or the relation manager of another thread raises RuntimeError, for every operation, instead of corrupting state (a function decorated once with the transaction may be called from any thread). Sessions that may be alive at the same time, whether threads, processes (also forked ones) or hosts, never share the identity used to recognise their own locks, and two generated tag versions are never equal even if generated at the same instant with equal thread ids or process ids.",
 'schedules configurations histories','All interleavings of threads obtaining and using caches, equal thread idents in different processes, equal pids on different hosts, forks after first use, coarse clocks.',
 'One unit test checks the RuntimeError of single methods; identities across processes and forks are untested.',
 CC+'mixins.py '+CC+'utils.py '+DJ+'__init__.py '+CC+'transaction.py '+CC+'relations.py',
 [('thread-local collection',DJ+'__init__.py CacheCollection._caches'),('ident validation',CC+'mixins.py ThreadSafeDecoratorMixIn'),('session id, version generator',CC+'utils.py get_thread_id/generate_tag_version')],
 observe=['caches[alias]','exceptions','effect of locks across sessions'])
p('C20','nocache text transformation preserves the surrounding text',
 "Evaluating the dynamic regions of a text leaves everything outside of the regions unchanged, replaces each region by exactly what its code echoes, and passes data given at its start tag unchanged; regions produced by a region are evaluated too.",
 'inputs','All texts, secrets, indentation styles and data.',
 'A few literal inputs are tested.',
 CC+'nocache.py',[('regex substitution and exec',CC+'nocache.py NoCache.handle')],observe=['NoCache.handle'])
p('C21','Code written against the legacy package name keeps working',
 "Everything that can be imported under the new package name can be imported under the old one, behaves the same and interoperates with objects of the new one.",
 'programs','All import orders and forms.',
 'Only imports of a few names are exercised.',
 'cache_tagging/__init__.py',[('package path extended with the new package','cache_tagging/__init__.py')],observe=['import'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
print(len(P))
