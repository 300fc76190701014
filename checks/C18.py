"""C18 importing templates."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'lib'))
import vf, statemachine as sm  # noqa: E401,E402

NAMES = ['a', 'b', 'p', 'p.a', 'p.b', 'p.q', 'p.q.a', 'p.q.b']
REL = ['a', 'b', 'p', 'p/__init__', 'p/a', 'p/b', 'p/q', 'p/q/__init__',
       'p/q/a', 'p/q/b']


def gen(rng):
    tag = [0]
    faults = rng.random() < .4

    def imps(loc):
        out = []
        for _ in range(rng.choice([0, 0, 0, 0, 1, 1, 2])):
            if len(loc) > 2 and rng.random() < .6:
                lv = rng.choice([1, 1, 1, 2, 2, 3])
                out.append({'lv': lv, 'mod': rng.choice(
                    [[], [], [], ['q'], ['b']]),
                    'name': rng.choice('aabbq')})
                if out[-1]['mod']:
                    out[-1]['name'] = 'b' if out[-1]['mod'] == ['q'] else 'a'
            elif rng.random() < .5:
                out.append({'lv': 0, 'mod': rng.choice(NAMES).split('.'),
                            'name': ''})
            else:
                out.append({'lv': 0, 'mod': rng.choice([['p'], ['p', 'q']]),
                            'name': rng.choice('ab')})
        return out

    def write(loc, k):
        tag[0] += 1
        f = 'ok'
        if faults and rng.random() < .3:
            f = rng.choice(['exc', 'syn', 'psyn'] if k != 'py'
                           else ['exc', 'syn'])
        return {'loc': loc, 'k': k,
                'c': {'t': ('Y' if k == 'py' else 'T') + str(tag[0]), 'f': f,
                      'imps': imps(loc), 'tm': k != 'py'}}

    def loc():
        return [rng.choice('1112')] + rng.choice(REL).split('/')

    def kind(x):
        if x[-1] == '__init__':
            return rng.choice(['py', 'py', 'py', 'tmpl'])
        return rng.choice(['py', 'py', 'tmpl', 'tmpl', 'tmpl', 'cheetah'])
    init = []
    if rng.random() < .93:
        init.append(write(['1', 'p', '__init__'], 'py'))
        if rng.random() < .9:
            init.append(write(['1', 'p', 'q', '__init__'], 'py'))
    for _ in range(rng.randint(1, 10)):
        x = loc()
        init.append(write(x, kind(x)))
    have = [(e['loc'], e['k']) for e in init]
    ops = []
    if rng.random() < .8:
        ops.append({'op': 'install', 'exts': rng.choice(
            [['tmpl']] * 3 + [['tmpl', 'cheetah'], ['cheetah', 'tmpl'],
                              ['cheetah']])})
    for _ in range(rng.randint(2, 14)):
        y = rng.random()
        if y < .06:
            ops.append({'op': 'install', 'exts': rng.choice(
                [['tmpl'], ['tmpl', 'cheetah'], ['cheetah', 'tmpl']])})
        elif y < .12:
            ops.append({'op': 'uninstall'})
        elif y < .3:
            x, k = rng.choice(have) if rng.random() < .6 else \
                (lambda z: (z, kind(z)))(loc())
            if rng.random() < .2:
                k = 'py'
            ops.append(dict(write(x, k), op='write',
                            mt=rng.choice(['old', 'new'])))
            have.append((x, k))
        elif y < .38:
            x, k = rng.choice([h for h in have
                               if h[0][-1] != '__init__'] or have)
            ops.append({'op': 'remove', 'loc': x,
                        'k': rng.choice([k, 'py', 'pyc'])})
        elif y < .52:
            ops.append({'op': 'forget',
                        'name': rng.choice(NAMES).split('.')})
        elif y < .57:
            x, k = rng.choice(have)
            if x[-1] == '__init__':
                x = x[:-1]
            ops.append({'op': 'load', 'loc': x,
                        'ext': rng.choice(['', 'tmpl', 'cheetah'])})
        elif y < .75:
            n = rng.choice([['p'], ['p'], ['p', 'q']])
            ops.append({'op': 'from', 'name': n,
                        'n': rng.choice('aabq' if len(n) == 1 else 'ab')})
        else:
            ops.append({'op': rng.choice(['import'] * 3 + ['call']),
                        'name': rng.choice(NAMES).split('.')})
    return {'cfg': {'init': init, 'cache': rng.random() < .15,
                    'ro': rng.random() < .12}, 'ops': ops}


def main():
    ck = vf.Check('C18')
    cfg = open(os.path.join(vf.SPEC, 'HookMC.cfg')).read()
    if ck.thorough():
        cfg = cfg.replace('Depth = 3', 'Depth = 4')
    sm.replay(ck, 'hook', 'HookMC', cfg, limit=ck.n(3000, 25000))
    cases = [gen(ck.rng) for _ in range(ck.n(3000, 30000))]
    sm.judge(ck, 'hook', 'HookTrace', cases, open_ok=True)
    ck.assumptions += [
        'modules are found in directories; namespace packages, zip files and '
        'other finders are not specified',
        'one thread imports']
    ck.finish()


vf.main(main)
