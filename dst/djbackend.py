"""Django cache backend of the simulation."""
from django.core.cache.backends.base import DEFAULT_TIMEOUT, BaseCache
from .bindings import world
from .server import Client


class SimCache(BaseCache):
    def __init__(self, location, params):
        super(SimCache, self).__init__(params)
        w = world()
        self._client = Client(w.sim, w.server(location))

    def _ttl(self, timeout):
        if timeout is DEFAULT_TIMEOUT:
            timeout = self.default_timeout
        return timeout

    def validate_key(self, key):
        pass

    def get(self, key, default=None, version=None):
        r = self._client.get(self.make_key(key, version=version))
        return default if r is None else r[0]

    def set(self, key, value, timeout=DEFAULT_TIMEOUT, version=None):
        self._client.set(self.make_key(key, version=version), value, self._ttl(timeout))

    def add(self, key, value, timeout=DEFAULT_TIMEOUT, version=None):
        return self._client.add(self.make_key(key, version=version), value, self._ttl(timeout))

    def delete(self, key, version=None):
        self._client.delete(self.make_key(key, version=version))

    def get_many(self, keys, version=None):
        m = {}
        for k in keys:
            m[self.make_key(k, version=version)] = k
        return {m[f]: v for f, v in self._client.get_many(m).items()}

    def set_many(self, data, timeout=DEFAULT_TIMEOUT, version=None):
        self._client.set_many({self.make_key(k, version=version): v for k, v in data.items()}, self._ttl(timeout))

    def delete_many(self, keys, version=None):
        self._client.delete_many([self.make_key(k, version=version) for k in keys])

    def has_key(self, key, version=None):
        return self.get(key, version=version) is not None

    def incr(self, key, delta=1, version=None):
        r = self._client.incr(self.make_key(key, version=version), delta)
        if r is None:
            raise ValueError("Key '%s' not found" % key)
        return r

    def clear(self):
        self._client.clear()
