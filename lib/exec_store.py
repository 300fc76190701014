import clock
clock.install()
import sys  # noqa: E402
import types  # noqa: E402
from Cheetah import CacheStore  # noqa: E402


class Client:
    """Stand-in for python-memcached: same protocol, in this process."""
    def __init__(self, servers, debug=0):
        self.d = {}

    def _live(self, key):
        if key in self.d:
            v, e = self.d[key]
            if e and clock.now > e:
                del self.d[key]
        return key in self.d

    def set(self, key, val, time=0):
        self.d[key] = (val, time)
        return True

    def add(self, key, val, time=0):
        if self._live(key):
            return 0
        return self.set(key, val, time)

    def replace(self, key, val, time=0):
        if not self._live(key):
            return 0
        return self.set(key, val, time)

    def delete(self, key, time=0):
        if not self._live(key):
            return 0
        del self.d[key]
        return 1

    def get(self, key):
        return self.d[key][0] if self._live(key) else None

    def flush_all(self):
        self.d.clear()


sys.modules['memcache'] = types.ModuleType('memcache')
sys.modules['memcache'].Client = Client


# values that are false, by the names the specification has for them
FALSE = {'~N': None, '~E': '', '~0': 0, '~F': False, '~L': []}


def dec(v):
    return FALSE.get(v, v)


def enc(v):
    for k, x in FALSE.items():
        if type(x) is type(v) and x == v:
            return k
    return v


def run(case):
    cfg = case['cfg']
    now = cfg['now']
    clock.set(now)
    cls = (CacheStore.MemcachedCacheStore if cfg['kind'] == 'memcached'
           else CacheStore.MemoryCacheStore)
    stores = [cls() for _ in range(cfg['stores'])]
    obs = []
    for o in case['ops']:
        s = stores[o['i'] - 1]
        op = o['op']
        try:
            if op == 'tick':
                now += o['t']
                clock.set(now)
                r = 'ok'
            elif op in ('set', 'add', 'replace'):
                if o['t']:
                    getattr(s, op)(o['k'], dec(o['v']), time=o['t'])
                else:
                    getattr(s, op)(o['k'], dec(o['v']))
                r = 'ok'
            elif op == 'get':
                r = 'val:%s' % enc(s.get(o['k']))
            elif op == 'delete':
                s.delete(o['k'])
                r = 'ok'
            elif op == 'clear':
                s.clear()
                r = 'ok'
        except CacheStore.Error:
            r = 'Error'
        except KeyError:
            r = 'KeyError'
        except Exception as e:
            r = 'exc:' + type(e).__name__
        obs.append(r)
    return {'obs': obs}
