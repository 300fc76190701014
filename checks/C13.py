"""C13 inheritance."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'lib'))
sys.path.insert(0, os.path.dirname(__file__))
import vf, vm, vmgen  # noqa: E401,E402
from vmgen import I, S, c, meth, var  # noqa: E402

FEAT = dict(text=6, put=4, echo=1, set=2, gset=1.5, super=4, block=5,
            **{'return': .4, 'raise': .3, 'stop': .3, 'if': 2,
               'for': 1.5, 'try': 1, 'capture': 1, 'call': .7,
               'filter': .8, 'putm': 6, 'setm': 1.2, 'upm': .6,
               'silentm': .3}, missing=.5, elses=1)
MAINS = ['respond', 'writeBody', 'body']
BLOCKS = ['b1', 'b2', 'b3']
METHS = ['m1', 'm2', 'm3', 'm4']
RANK = MAINS + BLOCKS + METHS
ARGS = {'m2': ['!'], 'm3': ['?'], 'm4': []}


def margs(rng, name):
    if name == 'm2':
        return [{'n': 'x', 'd': []}]
    if name == 'm3':
        return [{'n': 'x', 'd': [rng.choice([I(7), S('dflt')])]}]
    if name == 'm1' and rng.random() < .2:     # differs between the classes
        return [{'n': 'y', 'd': [S('dy')]}]
    return []


def attr_names(rng, feats):
    return ['x', 'y', 'z', 'g1', 'a1', 'a2']


def gen_class(rng, bases, known, py):
    """known: names of the methods its bases have"""
    want = [m for m in METHS if rng.random() < .4]
    blocks = [b for b in BLOCKS if rng.random() < .4]
    for b in BLOCKS:            # a base's block may be overridden by a method
        if b in known and b not in blocks and rng.random() < .3:
            want.append(b)
    main = 'respond'
    how, head, kw = '', [], {}
    if bases:
        how = 'ext' if len(bases) > 1 else \
            rng.choice(['base', 'base' if py else 'sub', 'ext'])
        if how == 'ext':
            main = 'writeBody'
        q = rng.random()
        if q < .2:
            main = rng.choice(MAINS)
            head.append('implements ' + main)
        elif q < .35:
            main = rng.choice(MAINS)
            kw['mainMethodName'] = main
    elif rng.random() < .15:
        main = rng.choice(MAINS)
        head.append('implements ' + main)
    ms = {}
    used = []
    order = sorted(want + [main] + blocks, key=RANK.index)
    todo = list(blocks)
    for n in order:
        r = RANK.index(n)
        callee = {m: ARGS.get(m, []) for m in RANK[r + 1:]
                  if (m in METHS and (m in known or m in want
                                      or rng.random() < .05))
                  or (m in known and rng.random() < .3)}
        g = vmgen.Gen(rng, FEAT, depth=2, maxlen=3,
                      names=attr_names(rng, None), meths=callee)
        if n in blocks and n not in used:
            continue            # its block was not placed
        g.blocks = [b for b in todo if RANK.index(b) > r and b not in used]
        ctx = frozenset()
        if n in known or (n not in MAINS and rng.random() < .03):
            ctx = frozenset(['super'])
        body = g.seq(2, ctx, 0 if n == main else 1, 4)
        if n == main and g.blocks and rng.random() < .7:
            b = g.blocks.pop(0)
            g.used.append(b)
            body.append({'s': 'block', 'f': b, 'st': 'b'})
        used += g.used
        ms[n] = meth([] if n in MAINS + BLOCKS else margs(rng, n),
                     vmgen.prep(body))
    k = {'base': 0, 'bases': bases, 'meths': ms, 'main': main,
         'attrs': {a: rng.choice([I(1), S('at'), I(3)])
                   for a in ('a1', 'a2') if rng.random() < .3},
         'blocks': used, 'how': how, 'head': head, 'kw': kw,
         'late': [m for m in ms if rng.random() < .3]}
    return k


def supers(k, known, rng):
    """arguments for the super-calls: what the method's name takes"""
    def walk(ss, name):
        for s in ss:
            if s['s'] == 'super':
                if name == 'm2' or (name == 'm3' and rng.random() < .5):
                    s['args'] = [rng.choice([c(I(2)), c(S('sup')), var('x'),
                                             c(vmgen.N)])]
            for f in ('body', 'els', 'fin'):
                walk(s.get(f, ()), name)
            for f in ('cs', 'ex', 'parts'):
                for q in s.get(f, ()):
                    walk(q['body'], name)
    for n, M in k['meths'].items():
        walk(M['body'], n)


def case(rng):
    n = rng.choice([1, 2, 2, 3, 3, 4, 5])
    cls = []
    prov = []           # the method names each class has or inherits
    py = n > 1 and rng.random() < .2
    named = rng.random() < .5
    if py:
        cls.append({'base': 0, 'bases': [], 'py': True, 'attrs': {'a1': S('pya')},
                    'meths': {m: meth([], [{'s': 'return', 'e': c(S('py' + m))}])
                              for m in ('m1', 'm4') if rng.random() < .7}})
        prov.append(set(cls[0]['meths']))
    for j in range(len(cls), n):
        bases = []
        if j:
            bases = [rng.randrange(max(0, j - 2), j) + 1]
            if py and j == 1:
                bases = [1]
            if j > 1 and rng.random() < .2:
                b2 = rng.randrange(1 if py else 0, j) + 1
                # (a template on a foreign base gets a respond of its own when
                # it has none, which would hide the other base's)
                if b2 not in bases and not (py and 1 in bases) and \
                        not (py and 'respond' not in
                             prov[bases[0] - 1] & prov[b2 - 1]):
                    bases = sorted(bases + [b2], reverse=True)
        known = set().union(*[prov[b - 1] for b in bases]) if bases else set()
        k = gen_class(rng, bases, known, py and 1 in bases)
        supers(k, known, rng)
        cls.append(k)
        prov.append(known | set(k['meths']))
    for j, k in enumerate(cls, 1):
        ext = k.get('how') == 'ext'
        if ext:
            form = rng.choice(['plain', 'plain', 'dotted', 'imported'])
            bs = ['VfK%d' % b for b in k['bases']]
            if len(bs) > 1:
                form = 'plain'
            if form == 'dotted':
                k['head'].insert(0, 'extends vfpkg.%s' % bs[0])
            elif form == 'imported':
                k['head'].insert(0, 'extends ' + bs[0])
                k['head'].insert(0, 'from vfpkg.%s import %s' % (bs[0], bs[0]))
            else:
                k['head'].insert(0, 'extends ' + rng.choice(
                    [', ', ',']).join(bs))
        k['name'] = 'VfK%d' % j
        if named or ext:
            k.setdefault('kw', {})['className'] = k['name']
    # a base named as its derived class is what compiling gives by default
    objs = []
    tmpl = [j for j, k in enumerate(cls, 1) if not k.get('py')]
    for j in tmpl:
        if j == tmpl[-1] or rng.random() < .7:
            objs.append({'cls': j, 'sl': [1], 'filt': rng.choice(
                ['Filter', 'Filter', 'Brackets'])})
    w = {'cls': cls, 'objs': objs, 'ns': [vmgen.std_ns(rng)]}
    ops = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        o = rng.randint(1, len(objs)) if rng.random() < .5 else len(objs)
        names = [m for m in MAINS if m in prov[objs[o - 1]['cls'] - 1]]
        roots = [k['main'] for k in cls if not k.get('py')
                 and (not k['bases'] or py and 1 in k['bases'])]
        if 'respond' in names and all(x == 'respond' for x in roots) \
                and rng.random() < .3:
            names = ['']
        m = rng.choice(names)
        ops.append(vmgen.render(o, m != '' and rng.random() < .25, m))
    return {'w': w, 'ops': ops, 'seed': rng.randrange(10**6)}


def main():
    ck = vf.Check('C13')
    cases = [case(ck.rng) for _ in range(ck.n(2500, 40000))]
    h = len(cases) // 6
    vm.judge(ck, cases[h:], mode='c', what='history')
    vm.judge(ck, cases[:h], mode='pure', what='history')
    ck.finish()


if __name__ == '__main__':
    vf.main(main)
