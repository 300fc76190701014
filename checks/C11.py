"""C11 memory cache store protocol."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'lib'))
import vf, statemachine as sm  # noqa: E401,E402


def main():
    ck = vf.Check('C11')
    sm.replay(ck, 'store', 'CacheStoreMC',
              open(os.path.join(vf.SPEC, 'CacheStoreMC.cfg')).read()
              .replace('Depth = 3', 'Depth = %d' % ck.n(3, 4))
              .replace('NStores = 2', 'NStores = %d' % ck.n(2, 1)),
              limit=ck.n(40000, 200000))
    rng = ck.rng
    cases = []
    for _ in range(ck.n(1500, 15000)):
        n = rng.randint(5, 30)
        now = rng.randint(10, 1000)
        t = now
        keys = ['k%d' % j for j in range(rng.randint(1, 4))] + ['', 'k 1']
        ops = []
        stores = rng.randint(1, 3)
        for j in range(n):
            op = rng.choice(['tick', 'set', 'set', 'add', 'add', 'replace',
                             'replace', 'get', 'get', 'get', 'delete',
                             'clear'] if rng.random() < .9 else ['get'])
            o = {'op': op, 'i': rng.randint(1, stores),
                 'k': rng.choice(keys), 'v': 'v%d' % j, 't': 0}
            if op == 'tick':
                o['t'] = rng.randint(1, 5)
                t += o['t']
            elif op in ('set', 'add', 'replace'):
                o['t'] = rng.choice([0, 0, t + 1, t + 3, t - 1, t, t + 5])
                if rng.random() < .2:
                    o['v'] = rng.choice(['~N', '~E', '~0', '~F', '~L'])
            ops.append(o)
        kind = rng.choice(['memory', 'memory', 'memcached'])
        if kind == 'memcached':     # None means that there is no value
            for o in ops:
                if o['v'] == '~N':
                    o['v'] = '~E'
        cases.append({'cfg': {'now': now, 'stores': stores,
                              'kind': kind},
                      'ops': ops})
    sm.judge(ck, 'store', 'CacheStoreTrace', cases)
    ck.assumptions.append('an expired entry not yet read may count as present '
                          'or absent for add, replace and delete')
    ck.finish()


vf.main(main)
