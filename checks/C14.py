"""C14 includes."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'lib'))
sys.path.insert(0, os.path.dirname(__file__))
import vf, vm, vmgen, vmlang  # noqa: E401,E402
from vmgen import I, S, B, N, c, var, meth  # noqa: E402

FEAT = dict(text=5, put=7, echo=1, set=3, gset=4, silent=1, inc=6,
            **{'break': .4, 'return': .4, 'raise': .5, 'stop': .4, 'if': 2,
               'for': 2.5, 'repeat': 1, 'try': 2.5, 'capture': 2, 'call': 1.5,
               'filter': 2, 'putm': 3, 'setm': 1}, missing=1, elses=1)
NAMES = ['x', 'y', 'z', 'g1']


def noself(t):
    """$self.m in an included template is its own m, $m the includer's: only
    the second is what the language defines methods to be called by"""
    if isinstance(t, dict):
        if t.get('form') == 'self':
            t['form'] = 'call'
        for x in t.values():
            noself(x)
    elif isinstance(t, list):
        for x in t:
            noself(x)
    return t


def inc_cls(rng, includes, meths):
    """a template to include; may itself include the ones in `includes`"""
    feat = dict(FEAT)
    if not includes:
        feat['inc'] = 0
    g = vmgen.Gen(rng, feat, depth=2, maxlen=3, names=NAMES, meths=meths)
    g.includes = includes
    ms = {'respond': meth([], vmgen.prep(g.seq(1, frozenset(), 1, 4)))}
    if rng.random() < .3:
        g2 = vmgen.Gen(rng, dict(feat, inc=0), depth=1, maxlen=2,
                       names=NAMES)
        ms[rng.choice(['im', 'm1'])] = meth([], vmgen.prep(
            g2.seq(1, frozenset(), 1, 3)))
        if 'im' in ms:
            ms['respond']['body'].append(
                {'s': 'putm', 'f': 'im', 'args': [], 'form': 'call',
                 'st': 'i'})
    return noself({'base': 0, 'meths': ms, 'attrs': {}, 'incl': True})


def incs(names, files, fn=False):
    out = []
    for n in names:
        for raw in (False, False, True):
            out.append({'s': 'inc', 'raw': raw, 'from': 'str', 'e': var(n),
                        'st': 'b'})
            if raw and n == 't1':
                out += [dict(out[-1], e=var('t1s32')),
                        dict(out[-1], e=var('t1s10'))]
    for f in files:
        for raw in (False, False, True):
            out.append({'s': 'inc', 'raw': raw, 'from': 'file',
                        'e': c(S(f)), 'st': 'b'})
            if fn:
                out.append({'s': 'inc', 'raw': raw, 'from': 'file',
                            'e': var('fn'), 'st': 'b'})
    return out


def case(rng):
    # texts: t1 and t2 include nothing, t3 includes t1/t2, t4 includes t1..t3
    # (nothing leads back to itself)
    texts, clss = [], []
    m1inc = rng.random() < .5
    avail = []
    for j in range(4):
        if j == 2:
            avail = incs(['t1', 't2'], ['f1.txt'])
        if j == 3:
            avail = incs(['t1', 't2', 't3'], ['f1.txt'])
        k = inc_cls(rng, avail, {} if m1inc else {'m1': []})
        u = vmlang.Unparser(rng.randrange(10**6))
        text = u.cls(k)
        texts.append(text)
        clss.append(k)
    g = vmgen.Gen(rng, FEAT, depth=2, maxlen=3, names=NAMES,
                  meths={'m1': []})
    g.includes = incs(['t1', 't2', 't3', 't4'], ['f1.txt', 'f2.txt'], True)
    main = vmgen.prep(g.seq(2, frozenset(), 2, 5))
    g1 = vmgen.Gen(rng, dict(FEAT, inc=1.5 * m1inc), depth=1, maxlen=2, names=NAMES)
    g1.includes = incs(['t1'], ['f1.txt'])
    m1 = vmgen.prep(g1.seq(1, frozenset(), 1, 3))
    w = {'cls': [{'base': 0, 'meths': {'respond': meth([], main),
                                       'm1': meth([], m1)}, 'attrs': {}}]
         + clss,
         'objs': [{'cls': 1, 'sl': [1], 'filt': rng.choice(
             ['Filter', 'Filter', 'WebSafe', 'Brackets'])}],
         'ns': [vmgen.std_ns(rng)],
         'inc': [{'text': t, 'cls': 2 + j} for j, t in enumerate(texts)]}
    if rng.random() < .3:
        w['objs'].append(dict(w['objs'][0], filt='Angle'))
    for b in (' ', '\n'):      # raw text that differs in blanks only
        w['ns'][0]['t1s%d' % ord(b)] = S(b + texts[0] + b)
    for j, t in enumerate(texts):
        w['ns'][0]['t%d' % (j + 1)] = S(t)
    w['ns'][0]['fn'] = S(rng.choice(['f1.txt', 'f2.txt', 'nofile.txt']
                                    if rng.random() < .3 else ['f1.txt']))
    w['fs'] = {'f1.txt': rng.choice(texts[:2]), 'f2.txt': texts[3]}
    ops = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        q = rng.random()
        if ops and q < .25:
            f = rng.choice(['f1.txt', 'f2.txt'])
            ops.append({'op': 'write', 'f': f, 'v': rng.choice(
                texts[:2] if f == 'f1.txt' else texts)})
        elif ops and q < .35:
            ops.append({'op': 'ns', 'n': 1, 'x': 'fn',
                        'v': S(rng.choice(['f1.txt', 'f2.txt']))})
        elif ops and q < .5:
            ops.append({'op': 'ns', 'n': 1, 'x': 't1', 'v': S(texts[1])})
        else:
            ops.append(vmgen.render(rng.randint(1, len(w['objs'])),
                                    rng.random() < .25))
    return {'w': w, 'ops': ops, 'seed': rng.randrange(10**6)}


def main():
    ck = vf.Check('C14')
    cases = [case(ck.rng) for _ in range(ck.n(2000, 30000))]
    h = len(cases) // 5
    vm.judge(ck, cases[h:], mode='c', what='history')
    vm.judge(ck, cases[:h], mode='pure', what='history')
    ck.finish()


if __name__ == '__main__':
    vf.main(main)
