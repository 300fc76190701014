"""C07 variable scope: histories over several template objects."""
import json, os, sys  # noqa: E401
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'lib'))
sys.path.insert(0, os.path.dirname(__file__))
import vf, vm, vmgen, statemachine as sm  # noqa: E401,E402
import C08  # noqa: E402
from vmgen import I, S, B, N  # noqa: E402

FEAT = dict(text=3, put=8, echo=1, set=6, gset=5, silent=1, aug=1.5,
            **{'del': 1.5, 'break': .5, 'return': .3, 'raise': .3, 'if': 2,
               'for': 3, 'repeat': .5, 'try': 2, 'capture': 2, 'call': 1,
               'putm': 5, 'setm': 3, 'silentm': 2, 'upm': 1}, missing=1,
            elses=1)
NAMES = ['x', 'y', 'z', 'g1', 'at', 'mo']


def cls(rng):
    spec = C08.MSPEC
    out = {}
    avail = {}
    for n in ('m1', 'm2', 'm3', 'respond'):
        g = vmgen.Gen(rng, FEAT, depth=2, maxlen=3, meths=avail, names=NAMES)
        args = []
        for j, a in enumerate(spec.get(n, ())):
            # arguments named like the other variables
            args.append({'n': rng.choice([['t', 'x', 'g1'], ['u', 'y']][j]),
                         'd': [] if a == '!' else [rng.choice([I(1),
                                                               S('d')])]})
            g.names = g.names + [args[-1]['n']]
        out[n] = vmgen.meth(args, vmgen.prep(
            g.seq(2, frozenset(), *((2, 4) if n == 'respond' else (1, 3)))))
        avail = dict(avail, **{n: spec.get(n, ())})
    attrs, mod = {}, {}
    for d, k in ((attrs, 'at'), (mod, 'mo')):
        if rng.random() < .8:
            d[k] = rng.choice([I(8), S('A')])
        if rng.random() < .2:
            d[rng.choice(['g1', 'x'])] = S(k)
    return {'base': 0, 'meths': out, 'attrs': attrs, 'mod': mod}


def case(rng):
    nc = rng.choice([1, 1, 2])
    w = {'cls': [cls(rng) for _ in range(nc)], 'objs': [],
         'ns': [vmgen.std_ns(rng), {}]}
    for x in NAMES:
        if rng.random() < .3:
            w['ns'][1][x] = rng.choice([I(4), S('two'), N, B(False)])
        if x in w['ns'][0] and rng.random() < .3:
            del w['ns'][0][x]
    for _ in range(rng.choice([1, 2, 2, 3])):
        w['objs'].append({'cls': rng.randint(1, nc), 'filt': 'Filter',
                          'sl': rng.choice([[1, 2], [2, 1], [1, 2], [1]])})
    ops = []
    for _ in range(rng.randint(2, 6)):
        o = rng.randint(1, len(w['objs']))
        q = rng.random()
        if q < .65:
            ops.append(vmgen.render(o, rng.random() < .2))
        elif q < .8:
            ops.append({'op': 'getvar', 'o': o, 'x': rng.choice(NAMES),
                        'd': rng.choice([N, S('dflt')])})
        elif q < .9:
            ops.append({'op': 'hasvar', 'o': o, 'x': rng.choice(NAMES)})
        else:
            ops.append({'op': 'ns', 'n': rng.randint(1, 2),
                        'x': rng.choice(NAMES), 'v': rng.choice([I(6),
                                                                 S('new')])})
    # one of the names begins like a word of the directive
    z = rng.choice(['z', 'localz', 'globals_', 'moduleZ', 'local_'])
    w, ops = json.loads(json.dumps([w, ops]).replace('"z"', '"%s"' % z))
    return {'w': w, 'ops': ops, 'seed': rng.randrange(10**6)}


def assign_case(rng):
    """assignments to parts of values"""
    kinds = [rng.choice(['dict', 'list', 'obj']) for _ in range(4)]
    names = ['d', 'e', 'f', 'g']

    def value(lo=0):
        return {'t': 'r', 'v': rng.randint(1, 4)} if rng.random() < .5 else \
            {'t': 'i', 'v': rng.randint(0, 9)}
    heap = []
    for k in kinds:
        ks = ['0', '1', '2'][:rng.randint(1, 3)] if k == 'list' else \
            rng.sample(['a', 'b'] + ['0'] * (k == 'dict'), 2)
        heap.append({'t': k, 'f': {x: value() for x in ks}})
    ns = {x: {'t': 'r', 'v': j + 1} for j, x in enumerate(names)
          if rng.random() < .8}
    ns['x'] = value()
    env = {x: v for x, v in ns.items()}     # what the variables may hold

    def path(v, n, ph):
        """a path that exists, mostly"""
        out = []
        for _ in range(n):
            if v is None or v['t'] == 'i':
                break
            h = heap[v['v'] - 1]
            m, k = h['t'], rng.choice(sorted(h['f']))
            if rng.random() < .07:
                m, k = rng.choice(['dict', 'list', 'obj']), \
                    rng.choice(['a', 'b', '0', '1'])
            if m == 'obj' or (m == 'dict' and ph and k.isalpha()
                              and rng.random() < .5):
                out.append({'m': '.', 'n': k})
                if not k.isalpha():
                    out[-1]['n'] = 'a'
            elif k.isdigit() and rng.random() < .25:
                out.append({'m': 'v', 'n': 'i'})
            else:
                out.append({'m': '[', 'n': k})
            v = h['f'].get(k)
        return out

    def ref(xs, ph=True, lo=0):
        x = rng.choice(xs)
        return x, path(env.get(x), rng.randint(lo, 3), ph)

    def expr():
        if rng.random() < .35:
            return {'k': 'i', 'v': rng.randint(0, 9)}
        x, p = ref(sorted(env))
        if rng.random() < .2:
            return {'k': 'b', 'x': x, 'path': p, 'n': rng.randint(1, 5)}
        return {'k': 'p', 'x': x, 'path': p}
    ops = []
    glob = []
    for _ in range(rng.randint(1, 4)):
        prog, loc = [], []
        if rng.random() < .6:
            prog.append({'k': 'set', 'g': False, 'x': 'i', 'path': [],
                         'op': '=', 'e': {'k': 'i',
                                          'v': rng.choice([0, 0, 1, -1])}})
        for _ in range(rng.randint(2, 7)):
            q = rng.random()
            if q < .35:
                x, p = ref(sorted(env) + loc + glob)
                prog.append({'k': 'read', 'x': x, 'path': p})
            elif q < .55:
                x = rng.choice('xyz')
                g = rng.random() < .5
                e = expr() if rng.random() < .3 else \
                    {'k': 'p', 'x': rng.choice(sorted(env)), 'path': []}
                if e['k'] == 'p' and not e['path']:
                    env.setdefault(x, None)
                    env[x] = env.get(e['x'])
                prog.append({'k': 'set', 'g': g, 'x': x, 'path': [],
                             'op': '=', 'e': e})
                (glob if g else loc).append(x)
            elif q < .6:
                prog.append({'k': 'set2', 'x': 'x', 'y': 'y', 'a': expr(),
                             'b': expr()})
                loc += ['x', 'y']
            elif q < .66 and loc:
                x, p = ref(loc, False, 1)
                if p:
                    prog.append({'k': 'del', 'x': x, 'path': p})
            else:
                g = rng.random() < .5
                pool = glob if g else loc
                if rng.random() < .04 or not pool:
                    pool = ['x', 'd']
                x, p = ref(pool, False, 1)
                prog.append({'k': 'set', 'g': g, 'x': x, 'path': p,
                             'op': rng.choice(['=', '=', '+=', '-=', '*=']),
                             'e': expr() if rng.random() < .4 else
                             {'k': 'i', 'v': rng.randint(0, 9)}})
        ops.append({'op': 'run', 'prog': prog})
    return {'cfg': {'heap': heap, 'ns': ns}, 'ops': ops,
            'seed': rng.randrange(10**6)}


def main():
    ck = vf.Check('C07')
    sm.replay(ck, 'assign', 'AssignMC', None, limit=ck.n(3000, 40000))
    sm.judge(ck, 'assign', 'AssignTrace',
             [assign_case(ck.rng) for _ in range(ck.n(1500, 20000))])
    ns = dict(vm.ctrl_ns(), x=S('N'))
    vm.enumerate_replay(ck, 'scope', ck.tier != 'quick', 40000, ns,
                        hist=(1, 2, 1))
    cases = [case(ck.rng) for _ in range(ck.n(3000, 40000))]
    h = len(cases) // 5
    vm.judge(ck, cases[h:], mode='c', what='history')
    vm.judge(ck, cases[:h], mode='pure', what='history')
    ck.finish()


if __name__ == '__main__':
    vf.main(main)
