"""C19 concurrent compiling and rendering."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'lib'))
sys.path.insert(0, os.path.dirname(__file__))
import vf, vm, vmgen  # noqa: E401,E402
import C08, C10  # noqa: E401,E402

BASE = dict(op='compile', src='c1', file='', dir='', t=0, cls='', mod='',
            main='', settings='', base='', glob='', pre='none', api='T',
            keep='', use='', nest='')


def design(ck):
    cfg = '''SPECIFICATION Spec
CONSTANTS Threads = {%s}
 LockedRun = %s
 AtomicPublish = %s
INVARIANTS OneClass OneName NoDeadlock
'''
    th = ', '.join(str(i) for i in range(1, ck.n(3, 4) + 1))
    ck.tlc('CompileConc', cfg % (th, 'FALSE', 'TRUE'))
    bad = []
    for lr, ap, want in (('TRUE', 'TRUE', 'NoDeadlock'),
                         ('FALSE', 'FALSE', 'OneClass')):
        r = ck.tlc('CompileConc', cfg % ('1, 2', lr, ap), count=False,
                   allow_violation=True)
        if r.violated != want:
            bad.append((lr, ap, r.violated))
    if bad:
        raise vf.MachineryError('wrong variants not rejected: %r' % bad)
    ck.notes['wrong_design_variants_rejected'] = 2


def requests(ck, rng):
    cases = []

    def req(dom, fields):
        o = dict(BASE)
        for f in fields:
            if rng.random() < .6:
                o[f] = rng.choice(dom[f])
        if o['nest']:
            o.update(cls='', main='', settings='', base='', glob='',
                     pre='none', api='T', keep='', use='', op='compile')
            # a nested request is one of its own: give it another text
            o['src'] = o['src'] + 'n' + o['nest']
        return o
    dom = dict(src=['c2'], cls=['Na'], mod=['Nc'], main=['mm'],
               settings=['pc', 'ex'], base=['b1', 'b2'], glob=['1', 'True'],
               pre=['x1', 'x2'], api=['M'], keep=['n', 'y'], use=['n', 'y'],
               nest=['1', '2'], op=['source'])
    # one switch of threads at every point of a request
    for pre in range(1, ck.n(140, 260)):
        o = dict(BASE)
        p = dict(BASE, **rng.choice([{}, {}, {'src': 'c2'}, {'nest': '1',
                 'src': 'cn'}, {'keep': 'n'}, {'mod': 'Nc'}, {'glob': '1'},
                 {'pre': 'x1'}, {'settings': 'pc'}]))
        cases.append({'kind': 'compile', 'threads': [[o], [p, dict(BASE)]],
                      'sched': {'seed': pre, 'pre': pre}})
    for i in range(ck.n(350, 5000)):
        fields = rng.sample(sorted(dom), rng.randint(1, 4))
        pool = [req(dom, fields) for _ in range(rng.randint(1, 3))]
        th = [[rng.choice(pool) for _ in range(rng.randint(1, 3))]
              for _ in range(rng.randint(2, 4))]
        cases.append({'kind': 'compile', 'threads': th,
                      'sched': {'seed': rng.randrange(10**9),
                                'max': rng.choice([4, 15, 60])}})
    obs = ck.run_cases('conc', cases, timeout=30)
    recs, idx = [], []
    for i, (c, o) in enumerate(zip(cases, obs)):
        if o.get('err') or 'events' not in o or o.get('hang'):
            ck.violate('compile/no-answer', c, None, o)
            continue
        ev = []
        for e in o['events']:
            if e[0] == 'inv':
                ev.append({'e': 'inv', 't': e[1], 'o': e[2], 'k': 0,
                           'text': ''})
            else:
                ev.append({'e': 'ret', 't': e[1], 'o': BASE, 'k': e[2],
                           'text': e[3]})
        recs.append({'n': len(c['threads']), 'ev': ev})
        idx.append(i)
    p = vf.ndjson(ck.path('lin.ndjson'), recs)
    res = ck.tlc('CompileLin', 'INIT Init\nNEXT Next\n', env={'CASES': p})
    acc = {r['h'] for r in res.records}
    for n, rec in enumerate(recs, 1):
        ck.validated += 1
        if n not in acc:
            ck.violate('compile/not-linearizable', cases[idx[n - 1]],
                       'some serial order of the requests', rec['ev'])
    ck.notes['compile_histories'] = len(recs)
    ck.notes['thread_switches_forced'] = sum(o.get('switches', 0)
                                             for o in obs)
    ck.sample(recs[-1]['ev'][:6])
    ck.log('%d concurrent compile histories, %d states' % (len(recs),
                                                           res.distinct))


def renders(ck, rng):
    cases = []
    for i in range(ck.n(300, 4000)):
        n = rng.choice([2, 2, 2, 3])
        groups = []
        shared = rng.random() < .75
        for j in range(n):
            if j and shared:
                w = dict(groups[0]['w'])
                ns = vmgen.std_ns(rng)
                w['ns'] = [ns]
                f = rng.choice(['Filter', 'Brackets', 'Angle'])
                w['objs'] = [dict(w['objs'][0], filt=f)]
            else:
                w = C08.world(rng)
            g = {'w': w, 'seed': rng.randrange(10**6),
                 'ops': [vmgen.render(trans=rng.random() < .3)
                         for _ in range(rng.randint(1, 3))]}
            if j and shared:
                g['share'] = 0
            groups.append(g)
        cases.append({'kind': 'render', 'groups': groups,
                      'prebuilt': shared or rng.random() < .3,
                      'sched': {'seed': rng.randrange(10**9),
                                'max': rng.choice([2, 6, 20])}})
    obs = ck.run_cases('conc', cases, timeout=30)
    sub, sobs = [], []
    for c, o in zip(cases, obs):
        if 'obs' not in o or any(x is None for x in o['obs']):
            ck.violate('render/no-answer', c, None, o)
            continue
        for j, g in enumerate(c['groups']):
            sub.append({'w': g['w'], 'ops': g['ops'], 'seed': g['seed'],
                        'sched': c['sched']})
            sobs.append({'obs': o['obs'][j],
                         'src': o['src'] and (o['src'][j] or o['src'][0])})
    ck.notes['render_switches_forced'] = sum(o.get('switches', 0)
                                             for o in obs)
    run = ck.run_cases
    ck.run_cases = lambda *a, **kw: sobs
    try:
        vm.judge(ck, sub, what='concurrent-render')
    finally:
        ck.run_cases = run


def caches(ck, rng):
    import statemachine as sm
    cases = []
    while len(cases) < ck.n(200, 2500):
        cfg = C10.rand_template(rng)
        cfg['store'] = 'own'
        if not any(True for _ in C10.regions(cfg['tmpl'])):
            continue
        n = rng.randint(2, 6)
        groups = []
        for j in range(rng.choice([2, 2, 3])):
            ops = []
            for _ in range(n):
                o = {'op': 'render', 't': 0, 'i': rng.randint(1, 2),
                     'v': rng.choice(['p', 'q']), 'tst': rng.random() < .3,
                     'fail': [rng.choice('abcd')] if rng.random() < .2
                     else [], 'r': '', 'item': ''}
                if rng.random() < .2:
                    o['op'] = 'refresh'
                ops.append(o)
            groups.append({'cfg': cfg, 'ops': ops})
        cases.append({'kind': 'cache', 'groups': groups,
                      'sched': {'seed': rng.randrange(10**9),
                                'max': rng.choice([2, 6, 20])}})
    obs = ck.run_cases('conc', cases, timeout=30)
    sub, sobs = [], []
    for c, o in zip(cases, obs):
        if 'obs' not in o or any(x is None for x in o['obs']):
            ck.violate('cache/no-answer', c, None, o)
            continue
        for j, g in enumerate(c['groups']):
            sub.append(dict(g, meta=c['sched']))
            sobs.append({'obs': o['obs'][j]})
    run = ck.run_cases
    ck.run_cases = lambda *a, **kw: sobs
    try:
        sm.judge(ck, 'cache', 'CacheRegionsTrace', sub,
                 what='concurrent-cache')
    finally:
        ck.run_cases = run


def main():
    ck = vf.Check('C19')
    design(ck)
    requests(ck, ck.rng)
    renders(ck, ck.rng)
    caches(ck, ck.rng)
    ck.assumptions += [
        'each object is used by one thread at a time',
        'schedules switch threads at line boundaries of the code under test '
        '(calls within the compiler), chosen by seed and, for a single '
        'switch, at every such point of a compile request']
    ck.finish()


if __name__ == '__main__':
    vf.main(main)
