"""C08 captured output."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'lib'))
import vf, vm, vmgen  # noqa: E401,E402
from vmgen import c, S, I, T, var, meth  # noqa: E402

FEAT = dict(text=8, put=5, echo=1, set=3, gset=1, silent=1,
            **{'break': 1, 'continue': 1, 'return': .6, 'stop': .6, 'raise': 1.2,
               'if': 2, 'for': 2, 'repeat': 1, 'try': 3, 'capture': 6,
               'call': 6, 'filter': .7, 'putm': 4, 'setm': 2, 'silentm': 1,
               'upm': 2}, fail=1, elses=1)
MSPEC = {'m1': [], 'm2': ['?'], 'm3': ['!', '?']}


def meths(rng, spec=MSPEC, feat=FEAT):
    """m3 may call m2 and m1, m2 may call m1 (no recursion)"""
    out = {}
    avail = {}
    for n in ('m1', 'm2', 'm3'):
        g = vmgen.Gen(rng, feat, depth=2, maxlen=3, meths=avail)
        g.names = ['x', 'y', 'z', 't'][:3 + bool(spec[n])]
        args = []
        for j, a in enumerate(spec[n]):
            args.append({'n': 'tu'[j], 'd': [] if a == '!' else
                         [rng.choice([I(1), S('d'), S('<q>')])]})
        out[n] = meth(args, vmgen.prep(g.seq(2, frozenset(), 1, 3)))
        avail = dict(avail, **{n: spec[n]})
    return out


def world(rng, feat=FEAT, filt='Filter', top=(2, 4)):
    ms = meths(rng, feat=feat)
    g = vmgen.Gen(rng, feat, depth=3, maxlen=3, meths=MSPEC)
    body = vmgen.prep(g.seq(3, frozenset(), *top))
    return vmgen.world1(rng, body, ms, filt)


def main():
    ck = vf.Check('C08')
    rng = ck.rng
    vm.enumerate_replay(ck, 'region', True, 40000, vm.ctrl_ns())
    cases = []
    for i in range(ck.n(3000, 40000)):
        w = world(rng)
        ops = [vmgen.render(trans=rng.random() < .3)
               for _ in range(rng.choice([1, 1, 2, 3]))]
        cases.append({'w': w, 'ops': ops, 'seed': rng.randrange(10**6)})
    h = len(cases) // 5
    vm.judge(ck, cases[h:], mode='c', what='random')
    vm.judge(ck, cases[:h], mode='pure', what='random')
    ck.finish()


if __name__ == '__main__':
    vf.main(main)
