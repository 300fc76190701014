"""C10 cache regions."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'lib'))
import vf, statemachine as sm  # noqa: E401,E402


def C(r, body, num=0, unit='s', vary=False, test=False, form='in',
      auto=False, q="'"):
    return {'k': 'cache', 'r': r, 'num': num, 'unit': unit, 'vary': vary,
            'test': test, 'body': body, 'form': form, 'auto': auto, 'q': q}


def E(n):
    return {'k': 'ev', 'name': n}


def T(s):
    return {'k': 'text', 's': s}


def K(tmpl, **kw):
    return dict({'tmpl': tmpl, 'indef': False, 'store': 'own'}, **kw)


CATALOGUE = [
    K([T('<'), C('r1', [E('a')]), E('b'), T('>')]),
    K([C('r1', [E('a')], num=10, vary=True), C('r2', [E('b')], num=1200)]),
    K([C('r1', [E('a')], test=True), C('r2', [E('b')], num=20, unit='')]),
    K([C('r1', [E('b'), C('r2', [E('a')], num=10)], vary=True)],
      store='shared'),
    K([{'k': 'try', 'body': [T('x'), C('r1', [T('y'), E('a')], num=10),
                             T('z')]}, E('b')]),
    K([{'k': 'loop', 'vals': ['p', 'q', 'p'],
        'body': [C('r1', [E('a')], vary=True, test=True)]}], indef=True),
    K([C('x1', [E('a')], form='ph'), C('x2', [E('b')], num=10, form='ph')]),
]


def rand_template(rng):
    cnt = [0]
    forms = [0]

    def node(depth, incache):
        x = rng.random()
        if x < .2:
            return T(rng.choice(['x', 'yy', ' . ', 'a:b', 'é', "'q'"]))
        if x < .4 or depth == 0:
            return E(rng.choice('abcd'))
        if x < .5:
            return {'k': 'loop', 'vals': rng.choice(
                [['p', 'q'], ['q', 'p', 'q'], [], ['p'], ['é', 'p']]),
                'body': seq(depth - 1, incache)}
        if x < .6:
            return {'k': 'try', 'body': seq(depth - 1, incache)}
        cnt[0] += 1
        unit = rng.choice(['s', 's', 's', 'm', '', 'h', 'd', 'w'])
        num = rng.choice([0, 0, 10, 20, 5 if unit not in ('s',) else 30])
        if unit in ('d', 'w'):
            num = num and 10
        form = rng.choice(['in', 'in', 'line', 'ph'])
        if form == 'ph':
            return C('r%d' % cnt[0], [E(rng.choice('abcd'))], num=num,
                     unit=unit, form='ph', auto=True)
        return C('r%d' % cnt[0], seq(depth - 1, True), num=num, unit=unit,
                 vary=rng.random() < .4, test=rng.random() < .25, form=form,
                 auto=rng.random() < .3, q=rng.choice('\'"'))

    def seq(depth, incache):
        return [node(depth, incache) for _ in range(rng.randint(1, 3))]
    t = seq(3, False)
    return K(t, indef=rng.random() < .25,
             store=rng.choice(['own', 'own', 'shared']))


def regions(nodes):
    for n in nodes:
        if n['k'] == 'cache':
            yield n
        yield from regions(n.get('body', []))


UMS = {'s': 1000, 'm': 60000, '': 60000, 'h': 3600000, 'd': 86400000,
       'w': 604800000}


def main():
    ck = vf.Check('C10')
    cat = vf.ndjson(ck.path('cat.ndjson'), CATALOGUE)
    sm.replay(ck, 'cache', 'CacheRegionsMC',
              open(os.path.join(vf.SPEC, 'CacheRegionsMC.cfg')).read(),
              tlc_kw={'env': {'CATALOGUE': cat}},
              limit=ck.n(30000, 150000))
    rng = ck.rng
    cases = []
    for _ in range(ck.n(1500, 12000)):
        cfg = rand_template(rng)
        rs = list(regions(cfg['tmpl']))
        named = [n['r'] for n in rs if not n['auto']] or ['zz']
        ivs = [n['num'] * UMS[n['unit']] // 10 for n in rs if n['num']]
        ops = []
        total = 0
        fails = [rng.choice('abcd') for _ in range(rng.choice([0, 0, 1, 2]))]
        for _ in range(rng.randint(4, 14)):
            o = {'op': 'render', 't': 0, 'i': rng.randint(1, 2),
                 'v': rng.choice(['p', 'q', 'é']), 'tst': rng.random() < .3,
                 'fail': fails if rng.random() < .35 else [], 'r': '',
                 'item': ''}
            x = rng.random()
            if x < .25:
                iv = rng.choice(ivs or [1000])
                t = rng.choice([1, iv + 1, max(iv - 999, 1), 1001,
                                iv // 2 // 1000 * 1000 + 1])
                if total + t > 2000000000:
                    t = 1
                total += t
                o.update(op='tick', t=t)
            elif x < .45:
                o['op'] = 'refresh'
                if rng.random() < .7:
                    o['r'] = rng.choice(named)
                    if rng.random() < .5:
                        o['item'] = rng.choice(['p', 'q', o['r'], 'é'])
            ops.append(o)
        cases.append({'cfg': cfg, 'ops': ops})
    sm.judge(ck, 'cache', 'CacheRegionsTrace', cases)
    ck.assumptions += ['the clock is read through the time module',
                       'renderings at exactly the expiry instant are not '
                       'generated (the boundary is unspecified)',
                       'regions of one template have distinct ids']
    ck.finish()


if __name__ == "__main__":
    vf.main(main)
