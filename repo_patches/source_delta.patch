From 12488089d0181d161e0101f242de288680397b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:29 +0000
Subject: [PATCH 01/27] fix: an unfinished cache node is attached to the cache
 which resumes its creating

A miss without following set() left a node with its old parent, so a cache
created later inside of another one did not pass its tags to the latter.
---
 cache_dependencies/relations.py | 52 ++++++++++++++++++++++++++++-----
 1 file changed, 45 insertions(+), 7 deletions(-)

diff --git a/cache_dependencies/relations.py b/cache_dependencies/relations.py
index e552a22..806687e 100644
--- a/cache_dependencies/relations.py
+++ b/cache_dependencies/relations.py
@@ -17,21 +17,31 @@ class CacheNode(interfaces.ICacheNode):
         :type parent: cache_dependencies.interfaces.ICacheNode
         """
         self._key = key
-        self._parent = parent
+        self._parents = [parent]
         self._dependencies = dict()
 
     def parent(self):
-        return self._parent
+        return self._parents[-1]
+
+    def attach(self, parent):
+        """Attaches the node, left by unfinished creating of cache, to one more parent.
+
+        :type parent: cache_dependencies.interfaces.ICacheNode
+        """
+        if parent in self._parents:
+            self._parents.remove(parent)
+        self._parents.append(parent)
 
     def key(self):
         return self._key
 
     def add_dependency(self, dependency, version=None):
         assert isinstance(dependency, interfaces.IDependency)
-        if version not in self._dependencies:
-            self._dependencies[version] = dependencies.CompositeDependency()
-        self._dependencies[version].extend(dependency)
-        self.parent().add_dependency(dependency, version)
+        for node in self.lineage():
+            if isinstance(node, CacheNode):
+                node._extend_dependency(dependency, version)
+            else:
+                node.add_dependency(dependency, version)
 
     def get_dependency(self, version=None):
         try:
@@ -39,6 +49,26 @@ class CacheNode(interfaces.ICacheNode):
         except KeyError:
             return dependencies.DummyDependency()
 
+    def _extend_dependency(self, dependency, version):
+        if version not in self._dependencies:
+            self._dependencies[version] = dependencies.CompositeDependency()
+        self._dependencies[version].extend(dependency)
+
+    def lineage(self):
+        """Returns the node itself and all its ancestors, the nearest first, each of them once.
+
+        :rtype: list[cache_dependencies.interfaces.ICacheNode]
+        """
+        lineage, queue, visited = [], [self], set()
+        while queue:
+            node = queue.pop()
+            if id(node) not in visited:
+                visited.add(id(node))
+                lineage.append(node)
+                if isinstance(node, CacheNode):
+                    queue.extend(node._parents)
+        return lineage
+
     def __bool__(self):
         return True
 
@@ -72,6 +102,9 @@ class RelationManager(interfaces.IRelationManager):
     def get(self, key):
         if key not in self._data:
             self._data[key] = CacheNode(key, self._current)
+        elif not self._current or self._data[key] not in self._current.lineage():
+            # The node is left by unfinished creating of cache outside of the current one.
+            self._data[key].attach(self._current)
         return self._data[key]
 
     def current(self, key_or_node=Undef):
@@ -79,6 +112,8 @@ class RelationManager(interfaces.IRelationManager):
             return self._current
         if isinstance(key_or_node, string_types):
             node = self.get(key_or_node)
+            if node is not self._current:
+                node.attach(self._current)
         else:
             node = key_or_node
         self._current = node
@@ -90,7 +125,10 @@ class RelationManager(interfaces.IRelationManager):
             node = DummyCacheNode()
 
         if self.current() is node:
-            self.current(node.parent())
+            self.current(next(
+                ancestor for ancestor in node.lineage()
+                if not ancestor or self._data.get(ancestor.key()) is ancestor  # is not finished yet
+            ))
         return node
 
     def clear(self):
-- 
2.43.0


From 4d63ba746265e446f491e595ed214d26deb58aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:29 +0000
Subject: [PATCH 02/27] fix: own acquired state of tag does not hide the state
 released by another session

---
 cache_dependencies/dependencies.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cache_dependencies/dependencies.py b/cache_dependencies/dependencies.py
index dd5e3bf..71daa1a 100644
--- a/cache_dependencies/dependencies.py
+++ b/cache_dependencies/dependencies.py
@@ -320,8 +320,10 @@ class TagsDependency(interfaces.IDependency):
             state = acquired_tag_states.get(tag)
             released_state = released_tag_states.get(tag)
             if released_state is not None:
-                if state is None or released_state.is_released(state):
-                    state = released_state
+                if released_state.is_locked(transaction):
+                    locked_tags.add(tag)
+                if state is not None and released_state.is_released(state):
+                    state = None
             if state is not None and state.is_locked(transaction):
                 locked_tags.add(tag)
         return locked_tags
-- 
2.43.0


From 289c6081d3507061684f73daa31e03b8b6cb6c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:29 +0000
Subject: [PATCH 03/27] fix: replication delay concerns the next transactions
 of the releasing session too

---
 cache_dependencies/dependencies.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cache_dependencies/dependencies.py b/cache_dependencies/dependencies.py
index 71daa1a..c9ac9f0 100644
--- a/cache_dependencies/dependencies.py
+++ b/cache_dependencies/dependencies.py
@@ -169,10 +169,12 @@ class ReleasedTagState(AbstractTagState):
         """
         :type transaction: cache_dependencies.interfaces.ITransaction
         """
-        if transaction.get_session_id() == self.session_id:
-            # Released by current thread, ignore it
+        start_time = transaction.get_start_time()
+        if transaction.get_session_id() == self.session_id and (not self.delay or start_time < self.time):
+            # Released by current thread, ignore it,
+            # except for the next transactions, which still can read obsolete data from slave.
             return False
-        elif transaction.get_start_time() <= (self.time + self.delay):
+        elif start_time <= (self.time + self.delay):
             # We don't create cache in all transactions started earlier
             # than finished the transaction which has invalidated tag.
             return True
-- 
2.43.0


From 935c1157a381ab599a1ce920549c9d9caf9db3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:29 +0000
Subject: [PATCH 04/27] fix: check the lock again after creating of tag
 versions

---
 cache_dependencies/dependencies.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cache_dependencies/dependencies.py b/cache_dependencies/dependencies.py
index c9ac9f0..02e7b6a 100644
--- a/cache_dependencies/dependencies.py
+++ b/cache_dependencies/dependencies.py
@@ -221,6 +221,12 @@ class TagsDependency(interfaces.IDependency):
             raise exceptions.TagsLocked(self, locked_tags)
         nonexistent_tags = self.tags - set(tag_versions.keys())
         created_tag_versions = self._make_tag_versions(cache, nonexistent_tags, version)
+        if created_tag_versions:
+            # The tags could be acquired and invalidated by concurrent transaction
+            # before their new versions have been created.
+            locked_tags = self._get_locked_tags(cache, transaction, version).get() & nonexistent_tags
+            if locked_tags:
+                raise exceptions.TagsLocked(self, locked_tags)
         tag_versions.update(created_tag_versions)
         self.tag_versions = tag_versions
 
-- 
2.43.0


From ec56f88b535742c37eb504e9fe2ce2b33c8a2f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:29 +0000
Subject: [PATCH 05/27] fix: invalidate the tags at the end of transaction for
 REPEATABLE READ and SERIALIZABLE too

Required by ITransactionManager.finish(): caches created inside of the
rolled back transaction kept the dirty data.
---
 cache_dependencies/locks.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cache_dependencies/locks.py b/cache_dependencies/locks.py
index af16d76..2db669d 100644
--- a/cache_dependencies/locks.py
+++ b/cache_dependencies/locks.py
@@ -93,7 +93,11 @@ class RepeatableReadDependencyLock(DependencyLock):
         :type transaction: cache_dependencies.interfaces.ITransaction
         :type version: int or None
         """
-        dependency.release(self._cache(), transaction, self._delay, version)
+        cache = self._cache()
+        dependency.release(cache, transaction, self._delay, version)
+        # Drop the caches created by current transaction itself (it could be rolled back)
+        # and by transactions which have not seen the lock.
+        dependency.invalidate(cache, version)
 
 
 class SerializableDependencyLock(RepeatableReadDependencyLock):
-- 
2.43.0


From 093be704f12c1212728cbc24e047cd732c33f353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:29 +0000
Subject: [PATCH 06/27] fix: failure of cache backend does not leave unfinished
 transaction and relations behind

---
 cache_dependencies/cache.py           | 6 ++++--
 cache_dependencies/transaction.py     | 7 +++++--
 django_cache_dependencies/__init__.py | 8 +++++++-
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index 545c34a..5ae549a 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -167,8 +167,10 @@ class CacheWrapper(object):  # Adapter
         self.relation_manager.pop(key).add_dependency(dependency, version)
 
     def close(self):
-        self.transaction.flush()
-        self.relation_manager.clear()
+        try:
+            self.transaction.flush()
+        finally:
+            self.relation_manager.clear()
         # self.cache.close()  # should be closed directly or by signal, for example, request_finished in Django.
 
     @staticmethod
diff --git a/cache_dependencies/transaction.py b/cache_dependencies/transaction.py
index 1f326dd..4097a3a 100644
--- a/cache_dependencies/transaction.py
+++ b/cache_dependencies/transaction.py
@@ -169,8 +169,11 @@ class TransactionManager(AbstractTransactionManager):
         return self.current()
 
     def finish(self):
-        self.current().finish()
-        self.current(self.current().parent())
+        current = self.current()
+        try:
+            current.finish()
+        finally:
+            self.current(current.parent())
 
     def flush(self):
         while self._current:
diff --git a/django_cache_dependencies/__init__.py b/django_cache_dependencies/__init__.py
index f2eb864..5c5d0ec 100644
--- a/django_cache_dependencies/__init__.py
+++ b/django_cache_dependencies/__init__.py
@@ -173,7 +173,13 @@ def autodiscover():
 
 
 def close_caches(**kwargs):
+    errors = []
     for cache in caches.all():
-        cache.close()
+        try:
+            cache.close()
+        except Exception as e:
+            errors.append(e)
+    if errors:
+        raise errors[0]
 
 core_signals.request_finished.connect(close_caches)
-- 
2.43.0


From 09b5d085e4b5e17b023e58f07c7318f972344fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:29 +0000
Subject: [PATCH 07/27] fix: transaction.flush() validates thread sharing like
 the rest of methods

---
 cache_dependencies/transaction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cache_dependencies/transaction.py b/cache_dependencies/transaction.py
index 4097a3a..074701e 100644
--- a/cache_dependencies/transaction.py
+++ b/cache_dependencies/transaction.py
@@ -195,4 +195,5 @@ class ThreadSafeTransactionManagerDecorator(mixins.ThreadSafeDecoratorMixIn, Abs
         return self._delegate.finish()
 
     def flush(self):
+        self._validate_thread_sharing()
         return self._delegate.flush()
-- 
2.43.0


From f12bddd686e758fa664b2b2f04e466ef287eade0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:29 +0000
Subject: [PATCH 08/27] fix: cache_transaction_all() finishes transactions on
 exception and decorates when called with arguments

---
 django_cache_dependencies/decorators.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/django_cache_dependencies/decorators.py b/django_cache_dependencies/decorators.py
index e047ebc..e24174d 100644
--- a/django_cache_dependencies/decorators.py
+++ b/django_cache_dependencies/decorators.py
@@ -46,22 +46,18 @@ def cache_transaction_all(f=None, cache=None):
     elif not cache:
         cache = globals()['cache']
 
-    def wrapper(*args, **kwargs):
-        cache.transaction.begin()
-        result = f(*args, **kwargs)
-        cache.transaction.flush()
-        return result
-
-    if f:
-        return wrapper
-
     def wrapper_outer(f):
         def wrapper(*args, **kwargs):
             cache.transaction.begin()
-            result = f(*args, **kwargs)
-            cache.transaction.flush()
-            return result
+            try:
+                return f(*args, **kwargs)
+            finally:
+                cache.transaction.flush()
 
+        return wrapper
+
+    if f:
+        return wrapper_outer(f)
     return wrapper_outer
 
 
-- 
2.43.0


From 452825e917406411c47c40b43a80453896b10b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:29 +0000
Subject: [PATCH 09/27] fix: get_or_set_callback() aborts creating of cache
 when callback fails

---
 cache_dependencies/cache.py   | 8 +++++++-
 cache_dependencies/tagging.py | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index 5ae549a..38b3c0f 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -41,11 +41,17 @@ class CacheWrapper(object):  # Adapter
         :type args: tuple
         :type kwargs: dict
         """
+        current_cache_node = self.relation_manager.current()
         value = self.get(key, version=version)
         if value is None:
             args = args or []
             kwargs = kwargs or {}
-            value = callback(*args, **kwargs)
+            try:
+                value = callback(*args, **kwargs)
+            except BaseException:
+                self.abort(key)
+                self.relation_manager.current(current_cache_node)
+                raise
             self.set(key, value, dependency, timeout, version)
         return value
 
diff --git a/cache_dependencies/tagging.py b/cache_dependencies/tagging.py
index 511bb21..ece7978 100644
--- a/cache_dependencies/tagging.py
+++ b/cache_dependencies/tagging.py
@@ -16,11 +16,17 @@ class CacheTagging(object):  # Backward compatibility
 
         Otherwise calls cache_funcs, sets cache value to it and returns it.
         """
+        current_cache_node = self.relation_manager.current()
         value = self.get(key, version=version)
         if value is None:
             args = args or ()
             kwargs = kwargs or {}
-            value = callback(*args, **kwargs)
+            try:
+                value = callback(*args, **kwargs)
+            except BaseException:
+                self.abort(key)
+                self.relation_manager.current(current_cache_node)
+                raise
             self.set(key, value, tags, timeout, version)
         return value
 
-- 
2.43.0


From e2d00381f667e861c360b4d201bb010923919ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:18 +0000
Subject: [PATCH 10/27] fix: cache recreated instead of cached None keeps tags
 of its descendants

---
 cache_dependencies/cache.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index 38b3c0f..f3703e5 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -80,6 +80,9 @@ class CacheWrapper(object):  # Adapter
             return default
 
         self.finish(key, dependency, version=version)
+        if value is None and not abort and not self.ignore_descendants:
+            # Caller can't distinguish it from absent cache, and is going to create the cache.
+            self.begin(key)
         return value
 
     def get_many(self, keys, version=None, abort=False):
-- 
2.43.0


From 72ec511c37d267bc4e33d1d650c1290055a4e675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:18 +0000
Subject: [PATCH 11/27] fix: get_many() accepts any iterable of keys

---
 cache_dependencies/cache.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index f3703e5..900a361 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -91,6 +91,7 @@ class CacheWrapper(object):  # Adapter
         :type version: int or None
         :type abort: bool
         """
+        keys = list(keys)  # It can be an iterator
         if not abort and not self.ignore_descendants:
             current_cache_node = self.relation_manager.current()
             for key in keys:
-- 
2.43.0


From 15416240b07537d9f13e6dc20c9fdf167b48f0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:18 +0000
Subject: [PATCH 12/27] fix: setting of cache.ignore_descendants takes effect

---
 cache_dependencies/tagging.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cache_dependencies/tagging.py b/cache_dependencies/tagging.py
index ece7978..a181c8e 100644
--- a/cache_dependencies/tagging.py
+++ b/cache_dependencies/tagging.py
@@ -10,6 +10,14 @@ class CacheTagging(object):  # Backward compatibility
         """Constructor of cache instance."""
         self.cache = CacheWrapper(cache, relation_manager, transaction)
 
+    @property
+    def ignore_descendants(self):
+        return self.cache.ignore_descendants
+
+    @ignore_descendants.setter
+    def ignore_descendants(self, value):
+        self.cache.ignore_descendants = value
+
     def get_or_set_callback(self, key, callback, tags=(), timeout=None,
                             version=None, args=None, kwargs=None):
         """Returns cache value if exists
-- 
2.43.0


From 8c4912395f1ae5d5cb740b72afb2aae639f7704e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:18 +0000
Subject: [PATCH 13/27] fix: forked processes do not share the session id

---
 cache_dependencies/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cache_dependencies/utils.py b/cache_dependencies/utils.py
index d48e1c7..4cc5499 100644
--- a/cache_dependencies/utils.py
+++ b/cache_dependencies/utils.py
@@ -36,13 +36,13 @@ Undef = UndefType()
 
 def get_thread_id():
     """Returns id for current thread."""
-    try:
-        return _thread_local.thread_id
-    except AttributeError:
+    pid = os.getpid()  # Process could be forked since the id has been cached.
+    if getattr(_thread_local, 'pid', None) != pid:
         _thread_local.thread_id = '{0}.{1}.{2}'.format(
-            socket.gethostname(), os.getpid(), _thread.get_ident()
+            socket.gethostname(), pid, _thread.get_ident()
         )
-        return get_thread_id()
+        _thread_local.pid = pid
+    return _thread_local.thread_id
 
 
 def warn(old, new, stacklevel=3):
-- 
2.43.0


From 96b599838205c19072d5a401a491198ca1189276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:18 +0000
Subject: [PATCH 14/27] fix: nested {% cache_tagging %} does not replace tags
 of its ancestor

---
 django_cache_dependencies/templatetags/cache_tagging_tags.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/django_cache_dependencies/templatetags/cache_tagging_tags.py b/django_cache_dependencies/templatetags/cache_tagging_tags.py
index 2c1569c..9e36766 100644
--- a/django_cache_dependencies/templatetags/cache_tagging_tags.py
+++ b/django_cache_dependencies/templatetags/cache_tagging_tags.py
@@ -96,6 +96,7 @@ class CacheNode(Node):
                 context['cache_tagging_prevent'] = False
 
             sub_context = copy.copy(context)
+            sub_context.push()  # Copy shares its dicts with the context
             sub_context['cache_tagging'] = set(tags)
             # Allows nested caching
             sub_context['cache_tagging_prevent'] = False
-- 
2.43.0


From 6e7f0f9dcc807a70fa83a49321ae197d0372409c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:18 +0000
Subject: [PATCH 15/27] fix: empty fragment is cached together with tags of its
 descendants

---
 django_cache_dependencies/templatetags/cache_tagging_tags.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/django_cache_dependencies/templatetags/cache_tagging_tags.py b/django_cache_dependencies/templatetags/cache_tagging_tags.py
index 9e36766..5d60baa 100644
--- a/django_cache_dependencies/templatetags/cache_tagging_tags.py
+++ b/django_cache_dependencies/templatetags/cache_tagging_tags.py
@@ -66,7 +66,7 @@ class CacheNode(Node):
         cache_name = self.fragment_name.resolve(context)
         result = cache.get(cache_name)
 
-        if not result:
+        if result is None:
             timeout = None
             if self.timeout_var:
                 try:
-- 
2.43.0


From be4afb939419be76e5f749438996e1031529db0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:18 +0000
Subject: [PATCH 16/27] fix: {% cache_tagging %} aborts creating of cache when
 its rendering fails

---
 .../templatetags/cache_tagging_tags.py                    | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/django_cache_dependencies/templatetags/cache_tagging_tags.py b/django_cache_dependencies/templatetags/cache_tagging_tags.py
index 5d60baa..55b2ea8 100644
--- a/django_cache_dependencies/templatetags/cache_tagging_tags.py
+++ b/django_cache_dependencies/templatetags/cache_tagging_tags.py
@@ -64,6 +64,7 @@ class CacheNode(Node):
 
     def render(self, context):
         cache_name = self.fragment_name.resolve(context)
+        current_cache_node = cache.relation_manager.current()
         result = cache.get(cache_name)
 
         if result is None:
@@ -100,7 +101,12 @@ class CacheNode(Node):
             sub_context['cache_tagging'] = set(tags)
             # Allows nested caching
             sub_context['cache_tagging_prevent'] = False
-            result = self.nodelist.render(sub_context)
+            try:
+                result = self.nodelist.render(sub_context)
+            except BaseException:
+                cache.abort(cache_name)
+                cache.relation_manager.current(current_cache_node)
+                raise
             tags = sub_context['cache_tagging']
 
             # Prevent caching of ancestor
-- 
2.43.0


From d5ca4d5ee91c6eae607f00941ad0f9e02638fb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:18 +0000
Subject: [PATCH 17/27] fix: {% cache_tagging_prevent %} takes effect from
 inner scopes like {% for %} and {% with %}

---
 .../templatetags/cache_tagging_tags.py                   | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/django_cache_dependencies/templatetags/cache_tagging_tags.py b/django_cache_dependencies/templatetags/cache_tagging_tags.py
index 55b2ea8..3bce175 100644
--- a/django_cache_dependencies/templatetags/cache_tagging_tags.py
+++ b/django_cache_dependencies/templatetags/cache_tagging_tags.py
@@ -111,7 +111,7 @@ class CacheNode(Node):
 
             # Prevent caching of ancestor
             if sub_context['cache_tagging_prevent']:
-                context['cache_tagging_prevent'] = True
+                cache_tagging_prevent(context)
             prevent = sub_context['cache_tagging_prevent']
 
             if 'request' in context:
@@ -211,7 +211,12 @@ def do_cache(parser, token):
 @register.simple_tag(takes_context=True)
 def cache_tagging_prevent(context):
     """Prevents caching from body of cachetags."""
-    context['cache_tagging_prevent'] = True
+    for d in reversed(context.dicts):
+        if 'cache_tagging_prevent' in d:  # Prevent the caching from body of {% for %}, {% with %} etc.
+            d['cache_tagging_prevent'] = True
+            break
+    else:
+        context['cache_tagging_prevent'] = True
     return ''
 
 register.tag('cache_tagging', do_cache)
-- 
2.43.0


From 5a307080dc0925827a8af5b1381d247167dc4261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:18 +0000
Subject: [PATCH 18/27] fix: UpdateCacheMiddleware can be used without
 CacheMiddleware

---
 django_cache_dependencies/middleware.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/django_cache_dependencies/middleware.py b/django_cache_dependencies/middleware.py
index 958a316..0c557e7 100644
--- a/django_cache_dependencies/middleware.py
+++ b/django_cache_dependencies/middleware.py
@@ -111,6 +111,8 @@ class UpdateCacheMiddleware(MiddlewareMixin):
     UpdateCacheMiddleware must be the first piece of middleware in MIDDLEWARE
     so that it'll get called last during the response phase.
     """
+    tags = None  # patched
+
     def __init__(self, get_response=None):
         self.cache_timeout = settings.CACHE_MIDDLEWARE_SECONDS
         self.key_prefix = settings.CACHE_MIDDLEWARE_KEY_PREFIX
-- 
2.43.0


From 829e5990da49480b39c67cacf26960da4b57a7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:18 +0000
Subject: [PATCH 19/27] fix: cached page receives tags of nested caches

---
 django_cache_dependencies/middleware.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/django_cache_dependencies/middleware.py b/django_cache_dependencies/middleware.py
index 0c557e7..2dacf2d 100644
--- a/django_cache_dependencies/middleware.py
+++ b/django_cache_dependencies/middleware.py
@@ -50,8 +50,9 @@ More details about how the caching works:
 """
 import collections
 from django.conf import settings
-from django.utils.cache import get_cache_key, get_max_age
+from django.utils.cache import _generate_cache_header_key, get_cache_key, get_max_age
 
+from cache_dependencies.dependencies import CompositeDependency, TagsDependency
 from . import caches, DEFAULT_CACHE_ALIAS
 from .utils import patch_response_headers, learn_cache_key
 
@@ -174,13 +175,19 @@ class UpdateCacheMiddleware(MiddlewareMixin):
         if hasattr(request, 'cache_tagging'):
             tags.update(request.cache_tagging)
         if timeout:
+            # Descendants could be attached to the list of headers,
+            # because of it is the first cache which was missed by FetchFromCacheMiddleware.
+            dependency = CompositeDependency(TagsDependency(tags))
+            dependency.extend(self.cache.relation_manager.get(
+                _generate_cache_header_key(self.key_prefix, request)
+            ).get_dependency())
             cache_key = learn_cache_key(request, response, tags, timeout, self.key_prefix, cache=self.cache)  # patched
             if hasattr(response, 'render') and isinstance(response.render, collections.Callable):
                 response.add_post_render_callback(
-                    lambda r: self.cache.set(cache_key, r, tags, timeout)  # patched
+                    lambda r: self.cache.set(cache_key, r, dependency, timeout)  # patched
                 )
             else:
-                self.cache.set(cache_key, response, tags, timeout)  # patched
+                self.cache.set(cache_key, response, dependency, timeout)  # patched
         # patch end
         return response
 
-- 
2.43.0


From d5602c33503f299a5319e1ea962bf809756f9073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:18 +0000
Subject: [PATCH 20/27] fix: FileBasedCache writes the files which it is able
 to read

---
 django_cache_dependencies/backends.py | 30 +++++++++++++--------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/django_cache_dependencies/backends.py b/django_cache_dependencies/backends.py
index 07c0563..4c8423e 100644
--- a/django_cache_dependencies/backends.py
+++ b/django_cache_dependencies/backends.py
@@ -1,8 +1,9 @@
 import os
 import random
-import time
 import tempfile
 import threading
+import zlib
+from django.core.cache.backends.base import DEFAULT_TIMEOUT
 from django.core.cache.backends.filebased import pickle, FileBasedCache as DjangoFileBasedCache
 
 
@@ -11,11 +12,8 @@ class FileBasedCache(DjangoFileBasedCache):
 
     _fs_transaction_suffix = '.__dj_cache'
 
-    def set(self, key, value, timeout=None, version=None):
-        key = self.make_key(key, version=version)
-        self.validate_key(key)
-
-        fname = self._key_to_file(key)
+    def set(self, key, value, timeout=DEFAULT_TIMEOUT, version=None):
+        fname = self._key_to_file(key, version)
         dirname = os.path.dirname(fname)
 
         if timeout is None:
@@ -25,16 +23,18 @@ class FileBasedCache(DjangoFileBasedCache):
             threading.Thread(target=self._cull).start()
 
         try:
-            if not os.path.exists(dirname):
-                os.makedirs(dirname)
-
+            self._createdir()
             fd, tmp = tempfile.mkstemp(suffix=self._fs_transaction_suffix,
                                        dir=dirname)
-
-            with os.fdopen(fd, 'wb') as f:
-                now = time.time()
-                pickle.dump(now + timeout, f, pickle.HIGHEST_PROTOCOL)
-                pickle.dump(value, f, pickle.HIGHEST_PROTOCOL)
-            os.rename(tmp, fname)
+            renamed = False
+            try:
+                with os.fdopen(fd, 'wb') as f:
+                    f.write(pickle.dumps(self.get_backend_timeout(timeout), pickle.HIGHEST_PROTOCOL))
+                    f.write(zlib.compress(pickle.dumps(value, pickle.HIGHEST_PROTOCOL)))
+                os.rename(tmp, fname)
+                renamed = True
+            finally:
+                if not renamed:
+                    os.remove(tmp)
         except (IOError, OSError):
             pass
-- 
2.43.0


From 5b7bb259b1a4084aea793a5fe1001f48b4bb3af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:09 +0000
Subject: [PATCH 21/27] fix: function decorated by cache.transaction can be
 called from any thread

---
 cache_dependencies/transaction.py     | 19 +++++++++++++++++++
 django_cache_dependencies/__init__.py |  4 +++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/cache_dependencies/transaction.py b/cache_dependencies/transaction.py
index 074701e..3a3423e 100644
--- a/cache_dependencies/transaction.py
+++ b/cache_dependencies/transaction.py
@@ -182,6 +182,25 @@ class TransactionManager(AbstractTransactionManager):
 
 class ThreadSafeTransactionManagerDecorator(mixins.ThreadSafeDecoratorMixIn, AbstractTransactionManager):
 
+    def __init__(self, delegate, thread_safe_accessor=None):
+        """
+        :type delegate: cache_dependencies.interfaces.ITransactionManager
+        :type thread_safe_accessor: () -> cache_dependencies.interfaces.ITransactionManager
+        """
+        super(ThreadSafeTransactionManagerDecorator, self).__init__(delegate)
+        self._thread_safe_accessor = thread_safe_accessor
+
+    def __call__(self, func=None):
+        if func is None or self._thread_safe_accessor is None:
+            return super(ThreadSafeTransactionManagerDecorator, self).__call__(func)
+
+        @wraps(func)
+        def _decorated(*args, **kw):  # Can be called from any thread
+            with self._thread_safe_accessor():
+                return func(*args, **kw)
+
+        return _decorated
+
     def current(self, node=Undef):
         self._validate_thread_sharing()
         return self._delegate.current(node)
diff --git a/django_cache_dependencies/__init__.py b/django_cache_dependencies/__init__.py
index 5c5d0ec..4145e22 100644
--- a/django_cache_dependencies/__init__.py
+++ b/django_cache_dependencies/__init__.py
@@ -60,7 +60,9 @@ class CacheCollection(object):
             def thread_safe_cache_accessor():
                 return self(backend, *args, **kwargs).cache
             tags_lock = DependencyLock.make(isolation_level, thread_safe_cache_accessor, delay)
-            transaction = ThreadSafeTransactionManagerDecorator(TransactionManager(tags_lock))
+            transaction = ThreadSafeTransactionManagerDecorator(
+                TransactionManager(tags_lock), lambda: self(backend, *args, **kwargs).transaction
+            )
             relation_manager = ThreadSafeRelationManagerDecorator(RelationManager())
             self._caches[key] = CacheTagging(
                 cache, relation_manager, transaction
-- 
2.43.0


From 3e1de89a9cd5f66e6a9e24ef70f606ea81bec04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:53 +0000
Subject: [PATCH 22/27] fix: a stored cache passes to its ancestors what it had
 collected before it was attached to them

---
 cache_dependencies/cache.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index 900a361..2eefb37 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -141,7 +141,8 @@ class CacheWrapper(object):  # Adapter
         else:
             return self.cache.set(key, self._pack_data(value, combined_dependency_with_descendants), timeout, version)
         finally:
-            self.finish(key, dependency, version=version)
+            # The node could be attached to the current ancestors after it had collected its dependencies.
+            self.finish(key, combined_dependency_with_descendants, version=version)
 
 
     def invalidate_dependency(self, dependency, version=None):
-- 
2.43.0


From 57b12e10673b57eb96a5290503b1ee6757e93537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:40 +0000
Subject: [PATCH 23/27] fix: HEAD request survives disappearance of the list of
 headers

---
 django_cache_dependencies/middleware.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/django_cache_dependencies/middleware.py b/django_cache_dependencies/middleware.py
index 2dacf2d..626996f 100644
--- a/django_cache_dependencies/middleware.py
+++ b/django_cache_dependencies/middleware.py
@@ -231,7 +231,8 @@ class FetchFromCacheMiddleware(MiddlewareMixin):
         # if it wasn't found and we are looking for a HEAD, try looking just for that
         if response is None and request.method == 'HEAD':
             cache_key = get_cache_key(request, self.key_prefix, 'HEAD', cache=self.cache)
-            response = self.cache.get(cache_key)
+            if cache_key is not None:  # The list of headers could disappear in the meantime
+                response = self.cache.get(cache_key)
 
         if response is None:
             request._cache_update_cache = True
-- 
2.43.0


From 39125b5f2e7201c46c4531471a5066c81b68660e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:40 +0000
Subject: [PATCH 24/27] fix: page keeps tags of nested caches when it is stored
 by another key or twice

---
 django_cache_dependencies/middleware.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/django_cache_dependencies/middleware.py b/django_cache_dependencies/middleware.py
index 626996f..8684c48 100644
--- a/django_cache_dependencies/middleware.py
+++ b/django_cache_dependencies/middleware.py
@@ -50,7 +50,7 @@ More details about how the caching works:
 """
 import collections
 from django.conf import settings
-from django.utils.cache import _generate_cache_header_key, get_cache_key, get_max_age
+from django.utils.cache import get_cache_key, get_max_age
 
 from cache_dependencies.dependencies import CompositeDependency, TagsDependency
 from . import caches, DEFAULT_CACHE_ALIAS
@@ -175,13 +175,12 @@ class UpdateCacheMiddleware(MiddlewareMixin):
         if hasattr(request, 'cache_tagging'):
             tags.update(request.cache_tagging)
         if timeout:
-            # Descendants could be attached to the list of headers,
-            # because of it is the first cache which was missed by FetchFromCacheMiddleware.
+            # Descendants are attached to the cache which was missed by FetchFromCacheMiddleware,
+            # it's not always the cache which is going to be set.
             dependency = CompositeDependency(TagsDependency(tags))
-            dependency.extend(self.cache.relation_manager.get(
-                _generate_cache_header_key(self.key_prefix, request)
-            ).get_dependency())
             cache_key = learn_cache_key(request, response, tags, timeout, self.key_prefix, cache=self.cache)  # patched
+            for node in getattr(request, '_cache_missed', ()):
+                dependency.extend(node.get_dependency())
             if hasattr(response, 'render') and isinstance(response.render, collections.Callable):
                 response.add_post_render_callback(
                     lambda r: self.cache.set(cache_key, r, dependency, timeout)  # patched
@@ -225,7 +224,7 @@ class FetchFromCacheMiddleware(MiddlewareMixin):
         # try and get the cached GET response
         cache_key = get_cache_key(request, self.key_prefix, 'GET', cache=self.cache)
         if cache_key is None:
-            request._cache_update_cache = True
+            self._miss(request)
             return None  # No cache information available, need to rebuild.
         response = self.cache.get(cache_key)
         # if it wasn't found and we are looking for a HEAD, try looking just for that
@@ -235,13 +234,20 @@ class FetchFromCacheMiddleware(MiddlewareMixin):
                 response = self.cache.get(cache_key)
 
         if response is None:
-            request._cache_update_cache = True
+            self._miss(request)
             return None  # No cache information available, need to rebuild.
 
         # hit, return cached response
         request._cache_update_cache = False
         return response
 
+    # patch start
+    def _miss(self, request):
+        request._cache_update_cache = True
+        # The page could be fetched several times, by the middleware and by the decorator of view.
+        request._cache_missed = getattr(request, '_cache_missed', ()) + (self.cache.relation_manager.current(),)
+    # patch end
+
 
 class CacheMiddleware(UpdateCacheMiddleware, FetchFromCacheMiddleware):
     """
-- 
2.43.0


From 00b72f86755a627833edf45d2f66aa5c97c4fcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:39 +0000
Subject: [PATCH 25/27] fix: {% cache_tagging %} reports a non-integer timeout
 by TemplateSyntaxError instead of AttributeError

---
 django_cache_dependencies/templatetags/cache_tagging_tags.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/django_cache_dependencies/templatetags/cache_tagging_tags.py b/django_cache_dependencies/templatetags/cache_tagging_tags.py
index 3bce175..756fb74 100644
--- a/django_cache_dependencies/templatetags/cache_tagging_tags.py
+++ b/django_cache_dependencies/templatetags/cache_tagging_tags.py
@@ -82,7 +82,7 @@ class CacheNode(Node):
                     timeout = int(timeout)
                 except (ValueError, TypeError):
                     raise TemplateSyntaxError(
-                        '"cache" tag got a non-integer timeout value: {0}'.fomat(
+                        '"cache" tag got a non-integer timeout value: {0}'.format(
                             timeout
                         )
                     )
-- 
2.43.0


From f104379a742702c08d230b7207f686e8533dde75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:39 +0000
Subject: [PATCH 26/27] fix: {% cache_tagging %} aborts creating of cache when
 its arguments are unusable

---
 .../templatetags/cache_tagging_tags.py        | 64 +++++++++----------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/django_cache_dependencies/templatetags/cache_tagging_tags.py b/django_cache_dependencies/templatetags/cache_tagging_tags.py
index 756fb74..076bb2e 100644
--- a/django_cache_dependencies/templatetags/cache_tagging_tags.py
+++ b/django_cache_dependencies/templatetags/cache_tagging_tags.py
@@ -68,40 +68,40 @@ class CacheNode(Node):
         result = cache.get(cache_name)
 
         if result is None:
-            timeout = None
-            if self.timeout_var:
-                try:
-                    timeout = self.timeout_var.resolve(context)
-                except VariableDoesNotExist:
-                    raise TemplateSyntaxError(
-                        '"cache" tag got an unknkown variable: {0}'.format(
-                            self.timeout_var.var
+            try:
+                timeout = None
+                if self.timeout_var:
+                    try:
+                        timeout = self.timeout_var.resolve(context)
+                    except VariableDoesNotExist:
+                        raise TemplateSyntaxError(
+                            '"cache" tag got an unknkown variable: {0}'.format(
+                                self.timeout_var.var
+                            )
                         )
-                    )
-                try:
-                    timeout = int(timeout)
-                except (ValueError, TypeError):
-                    raise TemplateSyntaxError(
-                        '"cache" tag got a non-integer timeout value: {0}'.format(
-                            timeout
+                    try:
+                        timeout = int(timeout)
+                    except (ValueError, TypeError):
+                        raise TemplateSyntaxError(
+                            '"cache" tag got a non-integer timeout value: {0}'.format(
+                                timeout
+                            )
                         )
-                    )
-
-            tags = [x.resolve(context) for x in self.vary_on]
-            if 'tags' in self.kwargs:
-                tags += self.kwargs['tags'].resolve(context)
-
-            # We can also add a new tags during nodelist is rendering.
-            # And prevent caching.
-            if not 'cache_tagging_prevent' in context:
-                context['cache_tagging_prevent'] = False
-
-            sub_context = copy.copy(context)
-            sub_context.push()  # Copy shares its dicts with the context
-            sub_context['cache_tagging'] = set(tags)
-            # Allows nested caching
-            sub_context['cache_tagging_prevent'] = False
-            try:
+
+                tags = [x.resolve(context) for x in self.vary_on]
+                if 'tags' in self.kwargs:
+                    tags += self.kwargs['tags'].resolve(context)
+
+                # We can also add a new tags during nodelist is rendering.
+                # And prevent caching.
+                if not 'cache_tagging_prevent' in context:
+                    context['cache_tagging_prevent'] = False
+
+                sub_context = copy.copy(context)
+                sub_context.push()  # Copy shares its dicts with the context
+                sub_context['cache_tagging'] = set(tags)
+                # Allows nested caching
+                sub_context['cache_tagging_prevent'] = False
                 result = self.nodelist.render(sub_context)
             except BaseException:
                 cache.abort(cache_name)
-- 
2.43.0


From 81c7a611a3a615d2758ccfd1656a3ac8fa977433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 27/27] fix: outermost transaction releases the lock which a
 nested one failed to acquire

---
 cache_dependencies/transaction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cache_dependencies/transaction.py b/cache_dependencies/transaction.py
index 3a3423e..25f92a1 100644
--- a/cache_dependencies/transaction.py
+++ b/cache_dependencies/transaction.py
@@ -93,8 +93,9 @@ class SavePoint(Transaction):
         :type version: int or None
         """
         assert isinstance(dependency, interfaces.IDependency)
-        super(SavePoint, self).add_dependency(dependency, version)
+        # The outermost transaction releases the lock, it should know about the dependency even if acquiring fails.
         self._parent.add_dependency(dependency, version)
+        super(SavePoint, self).add_dependency(dependency, version)
 
     def finish(self):
         pass
-- 
2.43.0

