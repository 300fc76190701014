"""C01 dotted-name lookup."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'lib'))
import vf, statemachine as sm  # noqa: E401,E402

MAPS = ['dict', 'od', 'map']
KINDS = MAPS + ['obj', 'ga', 'mod', 'cls', 'cinst', 'partial', 'val', 'fn',
                'meth', 'builtin', 'dict', 'obj', 'fn']
NAMES = ['a', 'b', 'c', 'é', 'get', 'len', 'x_1']


def node(i):
    return {'g': 'n', 'i': i, 'x': ''}


def exc(rng):
    return {'g': 'x', 'i': 0, 'x': rng.choice(
        ['Boom', 'AttributeError', 'NotFound', 'KeyError', 'TypeError'])}


def graph(rng):
    n = rng.randint(2, 8)
    nodes = []
    for i in range(1, n + 1):
        k = rng.choice(KINDS)
        if i >= n - 1:
            k = 'dict'
        items, attrs = {}, {}
        for x in NAMES:
            if k in MAPS and rng.random() < .35:
                items[x] = rng.randint(1, n)
            p = rng.random()
            if x == 'get' and k in MAPS or x == 'len' and k == 'dict':
                p = 1
            if k in ('obj', 'ga', 'mod', 'cls', 'cinst', 'od', 'fn') \
                    and p < .3:
                attrs[x] = node(rng.randint(1, n))
            elif k == 'map' and p < .3:
                attrs[x] = node(rng.randint(1, n))
            elif k in ('obj', 'ga', 'cinst', 'map') and p < .45:
                attrs[x] = exc(rng)
        ret = node(0)
        if k in ('fn', 'meth', 'builtin'):
            ret = node(rng.randint(1, n)) if rng.random() < .7 else exc(rng)
            if k == 'fn' and ret['x'] == 'TypeError':
                ret['x'] = 'TypeError'
        nodes.append({'k': k, 'items': items, 'attrs': attrs, 'ret': ret})
    return {'nodes': nodes, 'loc': n - 1, 'glo': n}


def walkname(rng, g, start):
    """parts that mostly exist"""
    parts = []
    cur = start
    for _ in range(rng.choice([1, 1, 2, 2, 3, 3, 4, 6, 14, 17])):
        nd = g['nodes'][cur - 1]
        if nd['k'] in ('fn', 'meth', 'builtin') and parts \
                and nd['ret']['g'] == 'n' and rng.random() < .7:
            nd = g['nodes'][nd['ret']['i'] - 1]
        opts = [(x, j) for x, j in nd['items'].items()] + \
            [(x, r['i']) for x, r in nd['attrs'].items()]
        if not opts or rng.random() < .07:
            parts.append(rng.choice(NAMES[:4]))
            break
        x, cur = rng.choice(opts)
        parts.append(x)
        if not cur:
            break
    return parts


def case(rng):
    g = graph(rng)
    n = len(g['nodes'])
    ops = []
    for _ in range(rng.randint(5, 25)):
        o = rng.randint(1, n)
        op = rng.choice(['key', 'name', 'name', 'sl', 'sl', 'frame', 'fsl',
                         'fsl', 'hasname'])
        sl = [rng.randint(1, n) for _ in range(rng.randint(0, 4))]
        start = o
        if op in ('sl', 'fsl') and sl:
            start = rng.choice(sl)
        if op == 'frame' or op == 'fsl' and rng.random() < .3:
            start = rng.choice([g['loc'], g['glo']])
        parts = walkname(rng, g, start)
        if op == 'key':
            parts = parts[:1]
        if op in ('frame', 'fsl') and rng.random() < .1:
            parts = ['len'] + ([] if rng.random() < .5 else ['a'])
        ops.append({'op': op, 'o': o, 'sl': sl, 'n': parts,
                    'ex': op not in ('key', 'hasname')
                    and rng.random() < .6})
    return {'cfg': g, 'ops': ops, 'refs': rng.random() < .1}


def main():
    ck = vf.Check('C01')
    cfg = open(os.path.join(vf.SPEC, 'NameLookupEnum.cfg')).read()
    if ck.tier == 'thorough':
        cfg = cfg.replace('FALSE\nINIT', 'TRUE\nINIT')
    res = ck.tlc('NameLookupEnum', cfg)
    beh = res.records
    if ck.n(12000, 0) and len(beh) > 12000:
        ck.rng.shuffle(beh)
        beh = beh[:12000]
    ck.log('NameLookupEnum: %d graphs, %d replayed' % (res.distinct // 2,
                                                       len(beh)))
    for i, b in enumerate(beh):
        b['refs'] = i % 10 == 0
    for mode in ('c', 'pure'):
        obs = ck.run_cases('lookup', beh, mode=mode)
        for b, o in zip(beh, obs):
            ck.validated += 1
            if not isinstance(o, dict) or o.get('obs') != b['obs']:
                i = sm.first_diff(b['obs'], o.get('obs') or [])
                ck.violate('replay/%s/%s' % (mode, b['ops'][i]['op']
                                             if o.get('obs') else 'died'),
                           {'cfg': b['cfg'], 'op': b['ops'][i]},
                           b['obs'][i], (o.get('obs') or [o])[
                               i if o.get('obs') else 0])
            elif o['c'] != (mode == 'c'):
                raise vf.MachineryError('wrong implementation loaded')
    ck.sample(beh[0])
    cases = [case(ck.rng) for _ in range(ck.n(3000, 40000))]
    for mode in ('c', 'pure'):
        sm.judge(ck, 'lookup', 'NameLookupTrace', cases, mode=mode,
                 what='judge-' + mode)
    # recorded findings: the two lookups disagree on these objects
    for mode in ('c', 'pure'):
        for k, what in (('dd', 'mapping-that-makes-up-missing-items'),
                        ('gi', 'item-access-but-no-mapping')):
            g = {'nodes': [{'k': k, 'items': {}, 'attrs': {},
                            'ret': node(0)}] + [
                {'k': 'dict', 'items': {}, 'attrs': {}, 'ret': node(0)}] * 2,
                'loc': 2, 'glo': 3}
            c = {'cfg': g, 'ops': [{'op': 'name', 'o': 1, 'sl': [],
                                    'n': ['zz'], 'ex': True}]}
            o = ck.run_cases('lookup', [c], mode=mode)[0]
            if o.get('obs') != ['nf:zz']:
                ck.violate('finding', c, ['nf:zz'], o,
                           key='%s/%s' % (mode, what))
    ck.assumptions.append(
        'except for the recorded findings, objects with item access that are no mappings, mappings that make up '
        'missing items or whose item access fails, and parts that are no '
        'identifiers are not covered')
    ck.finish()


vf.main(main)
