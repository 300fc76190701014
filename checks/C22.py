"""C22 disabled directives and hooks."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'lib'))
import vf, statemachine as sm  # noqa: E401,E402

LEAF = ['text', 'comment', 'mlcomment', 'escaped', 'ph', 'phl', 'phx', 'phs',
        'phc', 'psp', 'psp2', 'silent', 'echo', 'assert', 'slurp', 'set',
        'setglobal', 'attr', 'pass', 'import', 'from']
INLINE = ['text', 'ph', 'ph', 'phl', 'phx', 'phs', 'psp', 'psp2', 'silent',
          'echo', 'set', 'setglobal']
EMPTY = ['raw', 'include', 'del', 'ternary', 'pharg', 'errorCatcher',
         'compiler', 'compiler-settings', 'breakstop']
FUN = ['def', 'def1', 'block', 'block1', 'closure', 'return', 'deco', 'super']
BLOCK = ['if', 'ifelse', 'elseif', 'unless', 'for', 'repeat', 'while',
         'continue', 'try', 'finally', 'capture', 'filter', 'cache', 'call']
LINE = ['if1', 'unless1', 'for1', 'repeat1', 'capture1', 'filter1', 'cache1',
        'call1', 'def1', 'block1', 'macro']
NAMES = ['psp', 'if', 'elif', 'else', 'end', 'unless', 'for', 'repeat', 'while',
         'break', 'continue', 'try', 'except', 'finally', 'raise', 'capture',
         'filter', 'cache', 'call', 'arg', 'def', 'block', 'closure', 'return',
         '@', 'super', 'raw', 'slurp', 'include', 'errorcatcher', 'compiler',
         'compiler-settings', 'defmacro', 'silent', 'echo', 'assert', 'set',
         'attr', 'pass', 'import', 'from', 'del', 'stop']
TYPES = ['placeholder', 'psp', 'decorator', 'compilerSettings', 'errorcatcher',
         'def'] + [x for x in NAMES if x not in
                   ('psp', 'end', 'block', 'closure', '@', 'raw', 'slurp',
                    'compiler-settings', 'defmacro')]


class G:
    def __init__(self, r):
        self.r, self.n = r, 0

    def num(self):
        self.n += 3
        return self.n

    def item(self, d, fun=True, clo=False):
        r = self.r
        x = r.random()
        if d <= 0 or x < .4:
            return {'k': r.choice([q for q in LEAF if not clo or q != 'phc']),
                    'n': self.num(), 'b': []}
        if x < .5:
            k = r.choice(EMPTY)
            return {'k': k, 'n': self.num(), 'b': []}
        if x < .62:
            k = r.choice(LINE if fun else
                         [q for q in LINE if q not in FUN + ['macro']])
        elif x < .72 and fun:
            k = r.choice(FUN)
        else:
            k = r.choice(BLOCK)
        if clo and k.rstrip('1') in ('cache', 'capture', 'call', 'filter'):
            k = 'if1' if k in LINE else 'if'
        n = self.num()
        if k in LINE:
            b = [{'k': r.choice(INLINE), 'n': self.num(), 'b': []}
                 for _ in range(r.randint(1, 2))]
            return {'k': k, 'n': n, 'b': b}
        return {'k': k, 'n': n, 'b': self.items(
            d - 1, fun and k not in FUN, clo or k == 'closure')}

    def items(self, d, fun=True, clo=False, hi=3):
        return [self.item(d, fun, clo) for _ in range(self.r.randint(1, hi))]


def names(prog, out):
    for q in prog:
        out.add(q['k'])
        names(q['b'], out)
    return out


def gen(rng):
    prog = G(rng).items(2, hi=4)
    c = {'dis': [], 'en': [], 'hd': rng.choice([0, 0, 1, 2]),
         'hp': rng.choice([0, 0, 1, 2]), 'hooks': [], 'up': rng.random() < .3}
    x = rng.random()
    if x < .36:
        c['dis'] = rng.sample(NAMES, rng.randint(1, 3))
    if .28 < x < .5:
        c['en'] = sorted(NAMES)
        for _ in range(rng.choice([0, 1, 1, 2, 8, len(NAMES) - 2])):
            c['en'].remove(rng.choice(c['en']))
    if x > .1:
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            k = rng.choice(['id', 'inc', 'dbl', 'ban'])
            c['hooks'].append({'k': k, 't': rng.choice(TYPES),
                               'n': rng.randint(1, 3 * 14)})
    return {'cfg': c, 'ops': [{'op': 'compile', 'prog': prog}]}


def main():
    ck = vf.Check('C22')
    cfg = open(os.path.join(vf.SPEC, 'GuardMC.cfg')).read()
    sm.replay(ck, 'guard', 'GuardMC', cfg, limit=ck.n(8000, 100000))
    cases = [gen(ck.rng) for _ in range(ck.n(6000, 60000))]
    sm.judge(ck, 'guard', 'GuardTrace', cases)
    ck.finish()


vf.main(main)
