"""C16 compiler settings."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'lib'))
import vf, statemachine as sm  # noqa: E401,E402

DOM = dict(var=['$', '@'], com=['##', '//', 'yes', '1x'], dir=['#', '^'],
           auto=['T', 'F'], filt=['T', 'F'], mark=['T', 'F'],
           psp=['<%', '{%'], slurp=['#', '~'], an=['T', 'F'],
           ml=['#*', '(*'], m1=['f1', 'f2'], m2=['f1', 'f2'])
NONE = dict.fromkeys(list(DOM) + ['dm'], '')


# D2 also serves #defmacro, whose text is written with the token @
DOM2 = dict(DOM, var=['@'])


def sett(rng, n, keys=None, DOM=DOM):
    s = dict(NONE)
    for k in rng.sample(keys or sorted(DOM), n):
        s[k] = rng.choice(DOM[k])
    return s


def item(rng):
    x = rng.random()
    if x < .25:
        k = rng.choice(sorted(DOM) + ['macro'])
        if k in ('m1', 'm2', 'macro'):
            return {'i': 'set', 'k': 'macro', 'v': '',
                    's': sett(rng, rng.randint(1, 2), ['m1', 'm2'])}
        return {'i': 'set', 'k': k, 'v': rng.choice(DOM[k]), 's': NONE}
    if x < .7:
        return {'i': 'block', 'form': rng.choice(['config', 'config', 'python']),
                'sp': rng.randrange(42),
                's': sett(rng, rng.randint(1, 4))}
    if x < .85:
        return {'i': 'reset', 'form': rng.choice('cs')}
    return {'i': 'defmacro'}


def prog(rng):
    out = []
    for _ in range(rng.randint(0, 6)):
        it = item(rng)
        if it in out and it['i'] == 'defmacro':
            continue
        out.append(it)
        if rng.random() < .5:
            out.append({'i': 'probe'})
    out.append({'i': 'probe'})
    return out


def gen(rng):
    cfg = {'D1': sett(rng, rng.randint(0, 5)),
           'D2': sett(rng, rng.randint(0, 4), [k for k in sorted(DOM)
                                               if k != 'dir'], DOM2)}
    if rng.random() < .4:
        cfg['D1']['dm'] = 'D2'
    ops = []
    progs = [prog(rng) for _ in range(2)]
    n = 0
    for _ in range(rng.randint(2, 8)):
        x = rng.random()
        if x < .2:
            d = rng.choice(['D1', 'D2'])
            k = rng.choice([k for k in sorted(DOM)
                            if d == 'D1' or k != 'dir'])
            ops.append({'op': 'mutate', 'd': d, 'k': k,
                        'v': rng.choice((DOM if d == 'D1' else DOM2)[k]
                                        + [''])})
        elif x < .35 and n:
            ops.append({'op': 'render', 'n': rng.randint(1, n)})
        else:
            n += 1
            ops.append({'op': 'compile', 'api': rng.choice('TTK'),
                        'set': rng.choice(['', 'D1', 'D1', 'D2']),
                        'how': rng.choice(['compile', 'compile', 'inst']),
                        'prog': rng.choice(progs)})
    return {'cfg': cfg, 'ops': ops}


def main():
    ck = vf.Check('C16')
    cfg = open(os.path.join(vf.SPEC, 'SettingsMC.cfg')).read()
    if ck.thorough():
        cfg = cfg.replace('PLen = 2', 'PLen = 3')
    sm.replay(ck, 'settings', 'SettingsMC', cfg, limit=ck.n(2500, 40000))
    cases = [gen(ck.rng) for _ in range(ck.n(2500, 30000))]
    sm.judge(ck, 'settings', 'SettingsTrace', cases)
    ck.finish()


vf.main(main)
