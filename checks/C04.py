"""C04 control flow."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'lib'))
import vf, vm, vmgen  # noqa: E401,E402

FEAT = dict(text=10, put=6, echo=2, silent=2, tern=2, set=5, aug=1, gset=1,
            **{'del': 1, 'pass': 1, 'break': 2, 'continue': 2, 'stop': .4,
               'return': .5, 'raise': 1.2, 'assert': .6, 'if': 5, 'unless': 2,
               'for': 4, 'repeat': 2, 'while': 2.5, 'try': 5}, fail=1,
            missing=1, short=1, elses=1)


def main():
    ck = vf.Check('C04')
    rng = ck.rng
    vm.enumerate_replay(ck, 'control', True, 40000, vm.ctrl_ns())
    cases = []
    for i in range(ck.n(4000, 60000)):
        g = vmgen.Gen(rng, FEAT, depth=3, maxlen=3)
        body = vmgen.prep(g.seq(rng.choice([2, 3, 3]), frozenset(), 2, 5))
        w = vmgen.world1(rng, body)
        ops = [vmgen.render(trans=rng.random() < .15)]
        cases.append({'w': w, 'ops': ops, 'seed': rng.randrange(10**6)})
    h = len(cases) // 5
    vm.judge(ck, cases[h:], mode='c', what='random')
    vm.judge(ck, cases[:h], mode='pure', what='random')
    ck.finish()


vf.main(main)
