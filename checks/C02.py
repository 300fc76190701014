"""C02 order of the namespaces."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'lib'))
import vf, statemachine as sm  # noqa: E401,E402

NAMES = ['x', 'y', 'z', 'Ellipsis', 'KeyError']


def values(rng, ac):
    n = rng.randint(6, 14)
    vals = [{'k': 'v', 'p': {}}, {'k': 'v', 'p': {}}]
    odd = rng.sample(['None', 'zero', 'empty', 'no', 'tuple', 'float'],
                     rng.choice([0, 0, 1, 2, 3]))
    vals += [{'k': 'v', 'p': {}, 'z': z} for z in odd]
    while len(vals) < n:
        k = rng.choice('vvhhf') if ac else rng.choice('vvh')
        i = rng.randint(1, len(vals))
        if k == 'h':
            p = {rng.choice('mmk'): i for _ in range(rng.randint(0, 2))}
        elif k == 'f':
            cand = [j for j, v in enumerate(vals, 1) if v['k'] != 'f']
            p = {'ret': rng.choice(cand)}
        else:
            p = {}
        vals.append({'k': k, 'p': p})
    return vals


class G:
    def __init__(self, rng):
        self.r = rng
        self.ac = rng.random() < .8
        self.vals = values(rng, self.ac)
        self.solid = [i for i, v in enumerate(self.vals, 1)
                      if v['k'] != 'f' and 'z' not in v]
        self.loop = [i for i, v in enumerate(self.vals, 1) if v['k'] != 'f']

    def v(self):
        return self.r.randint(1, len(self.vals))

    def q(self, s, n=None, m='', v=0):
        return {'s': s, 'n': n or self.r.choice(NAMES), 'm': m, 'v': v}

    def body(self, d, certain, meths):
        r = self.r
        out = []
        for _ in range(r.randint(1, 7)):
            k = r.choice(['ask'] * 6 + ['set', 'set', 'gset', 'del', 'has',
                                        'get', 'call', 'for', 'clo'])
            if k == 'ask' or k in ('has', 'get'):
                out.append(self.q(k, m=r.choice(['', '', '', 'm', 'k'])))
            elif k == 'set':
                out.append(self.q('set', v=self.v()))
                certain.add(out[-1]['n'])
            elif k == 'gset':
                out.append(self.q('gset', v=self.v()))
            elif k == 'del':
                if certain:
                    x = r.choice(sorted(certain))
                    certain.discard(x)
                    out.append(self.q('del', x))
            elif k == 'call' and meths:
                out.append(self.q('call', r.choice(meths), v=self.v()))
            elif k == 'clo':
                out.append(self.q('clo', r.choice('xyzpq'),
                                  m=r.choice(['', 'deep']),
                                  v=r.choice(self.solid)))
            elif k == 'for' and d:
                x = self.q('for')
                x['vs'] = [r.choice(self.loop)
                           for _ in range(r.randint(1, 3))]
                inner = set()
                x['body'] = self.body(d - 1, inner, meths)
                dels = {s['n'] for s in x['body'] if s['s'] == 'del'}
                certain -= dels
                out.append(x)
        return out or [self.q('ask')]

    def case(self):
        r = self.r
        meths = {}
        avail = []
        for m in ['m3', 'm2', 'm1'][:r.randint(0, 3)]:
            p = r.choice(NAMES[:3])
            meths[m] = {'p': p, 'body': self.body(1, set(), list(avail))}
            avail.append(m)
        meths['main'] = {'p': '', 'body': self.body(2, set(), avail)}
        # deleting in a loop what only its first turn has is Python's error
        kinds = ['dict', 'dict', 'map', 'obj', 'slots', 'mod']
        pool = [r.choice(kinds) for _ in range(r.randint(1, 4))]

        def some(p):
            return {x: self.v() for x in NAMES if r.random() < p}
        cfg = {'vals': self.vals, 'pool': pool, 'cls': some(.2),
               'mod': some(.25), 'meths': meths, 'ac': self.ac,
               'prio': r.random() < .2, 'direct': r.random() < .2,
               'stack': r.random() < .7}
        ops = []

        def op(o, **k):
            ops.append(dict({'op': o, 'i': 1, 'n': r.choice(NAMES), 'm': '',
                             'v': self.v(), 'sl': []}, **k))
        nobj = 0
        for i in range(len(pool)):
            for _ in range(r.randint(0, 2)):
                op('put', i=i + 1)
        for _ in range(r.randint(4, 14)):
            k = r.choice(['new', 'render', 'render', 'put', 'rm', 'iset',
                          'idel', 'cset', 'mset', 'has', 'get'])
            if k == 'new' or not nobj:
                if nobj < 3:
                    op('new', sl=[r.randint(1, len(pool)) for _ in
                                  range(r.randint(0, 3))])
                    nobj += 1
                continue
            if k in ('put', 'rm'):
                op(k, i=r.randint(1, len(pool)))
            elif k in ('cset', 'mset'):
                op(k)
            elif k in ('has', 'get'):
                op(k, i=r.randint(1, nobj), v=r.randint(0, 1),
                   m=r.choice(['', '', 'm']))
            else:
                op(k, i=r.randint(1, nobj))
        for i in range(nobj):
            op('render', i=i + 1)
        return {'cfg': cfg, 'ops': ops, 'style': r.randint(1, 10**6)}


def main():
    ck = vf.Check('C02')
    lim = ck.n(5000, 0)
    sm.replay(ck, 'ns', 'NamespacesEnum', None, limit=lim)
    for mode, n in (('c', ck.n(3000, 60000)), ('pure', ck.n(1500, 30000))):
        cases = [G(ck.rng).case() for _ in range(n)]
        sm.judge(ck, 'ns', 'NamespacesTrace', cases, mode=mode,
                 what='judge-' + mode)
    ck.finish()


vf.main(main)
