"""C09 output filters."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'lib'))
sys.path.insert(0, os.path.dirname(__file__))
import vf, vm, vmgen  # noqa: E401,E402
import C08  # noqa: E402
from vmgen import I, S, B, N, L  # noqa: E402

FEAT = dict(text=4, put=8, echo=3, set=2, silent=1, tern=2,
            **{'break': .5, 'continue': .3, 'return': .5, 'raise': .8,
               'stop': .3, 'if': 1.5, 'for': 2, 'try': 2.5, 'capture': 1.5,
               'call': 1.5, 'filter': 8, 'putm': 6, 'setm': 1.5,
               'upm': 1}, fail=1, elses=1, short=1)
VALS = [S('<b>&amp; "q"'), S('  two  words\n\n next '), S(''), N, I(0),
        I(-12), B(True), S('é<'), S('(x)'), L(S('<'), I(1), N), S("a'b"),
        S(' '), S('\t<\n'), S('long text here')]


def case(rng):
    w = C08.world(rng, FEAT, rng.choice(['Filter', 'Filter', 'WebSafe',
                                         'Brackets', 'Strip', 'MaxLen',
                                         'StripSqueeze']))
    for x in 'xyz':
        w['ns'][0][x] = rng.choice(VALS)
    # a second object of the class, with another filter
    w['objs'].append(dict(w['objs'][0], filt=rng.choice(
        ['Filter', 'Angle', 'WebSafe'])))
    ops = [vmgen.render(rng.choice([1, 1, 2]), rng.random() < .2,
                        rng.choice(['respond', 'respond', 'm1']))
           for _ in range(rng.choice([1, 2, 3]))]
    for o in ops:
        if o['m'] == 'm1':
            o['trans'] = False
    return {'w': w, 'ops': ops, 'seed': rng.randrange(10**6)}


def main():
    ck = vf.Check('C09')
    n = ck.n(4, 5)
    res = ck.tlc('FilterEnum', 'INIT Init\nNEXT Next\nCONSTANT MaxN = %d\n'
                 'INVARIANT Laws\n' % n)
    obs = ck.run_cases('filter', res.records)
    for r, o in zip(res.records, obs):
        ck.validated += 1
        if o.get('r') != r['r']:
            ck.violate('standard-filters', r['s'], r['r'], o)
    ck.log('%d strings through every filter' % len(obs))
    vm.enumerate_replay(ck, 'region', True, 2000 if ck.tier == 'quick'
                        else 40000, vm.ctrl_ns())
    cases = [case(ck.rng) for _ in range(ck.n(3000, 40000))]
    h = len(cases) // 5
    vm.judge(ck, cases[h:], mode='c', what='random')
    vm.judge(ck, cases[:h], mode='pure', what='random')
    ck.finish()


if __name__ == '__main__':
    vf.main(main)
