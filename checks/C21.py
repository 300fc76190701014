"""C21 macros."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'lib'))
import vf, statemachine as sm  # noqa: E401,E402

NAMES = ['mac%d' % i for i in range(1, 7)]
TEXTS = ['a', 'b c', ' d ', 'e.', '(f)', 'g:h', "i'j", 'k,', '$ 5', '50% of',
         'm@n.org', 'x = 1', '"', 'r\\s', 'é']
ARGS = {'A': ["'A'", '"A"', "'' 'A'", "str('A')", "['A', 'B'][0]",
              "{'a:b': 'A'}['a:b']", "('A')"],
        'b': ["'b'", "'ab'[1:]", "chr(98)", "'%s' % 'b'"],
        'c d': ["'c d'", "' '.join(['c', 'd'])"],
        'e:f': ["'e:f'", "'e' + ':f'"],
        'g#h': ["'g#h'"], '': ["''"]}


def has(items, kinds):
    return any(q['k'] in kinds or has(q.get('b', ()), kinds) for q in items)


class TooBig(Exception):
    pass


def cost(items, macs):
    """how many items the expansion goes through"""
    n = [0]

    def body(b, src):
        out = []
        for q in b:
            if q['k'] == 'src':
                out += src
            elif q['k'] == 'when':
                out += body(q['b'], src)
            elif q['k'] == 'via':
                out += body(macs[q['n']]['b'], src)
            elif 'b' in q:
                out.append(dict(q, b=body(q['b'], src)))
            else:
                out.append(q)
            if len(out) > 300:
                raise TooBig
        return out

    def go(items):
        for q in items:
            n[0] += 1
            if n[0] > 1500:
                raise TooBig
            if q['k'] == 'call':
                go(body(macs[q['n']]['b'], q['b']))
            elif 'b' in q:
                go(q['b'])
    go(items)


class G:
    def __init__(self, r):
        self.r = r
        self.macs = {}

    def text(self, in_macro=False):
        t = self.r.choice(TEXTS)
        if in_macro and ('@' in t or '%' in t or '\\' in t):
            t = 'z'
        return {'k': 't', 's': t}

    def args(self, n):
        """arguments and their text"""
        r = self.r
        a, bits = {}, []
        for p in self.macs[n]['ps']:
            if r.random() < .6:
                v = r.choice(sorted(ARGS))
                a[p] = v
                bits.append(p + r.choice(['=', ' = ']) + r.choice(ARGS[v]))
        r.shuffle(bits)
        return a, (' ' + ', '.join(bits) if bits else '')

    def items(self, d, macros, lo, defbody=None, n=None):
        """macros: names that may be called, with index above lo"""
        r = self.r
        out = []
        for _ in range(n or r.randint(1, 3)):
            k = r.choice(['t', 't', 'v', 'v', 'set', 'if', 'for', 'call',
                          'call'] + (['src', 'src', 'arg', 'when', 'via']
                                     if defbody else []))
            if k == 't':
                out.append(self.text(bool(defbody)))
            elif k == 'v':
                out.append({'k': 'v', 'n': r.choice('xyz')})
            elif k == 'set':
                out.append({'k': 'set', 'n': r.choice('xyz'),
                            's': r.choice(['s1', 's2', 's 3'])})
            elif k in ('if', 'for') and d:
                out.append({'k': k,
                            'n': r.choice('TF' if k == 'if' else 'xyi'[:2]),
                            'b': self.items(d - 1, macros, lo, defbody)
                            + [{'k': 't', 's': r.choice('no')}]})
            elif k == 'call' and d:
                cand = [m for m in macros if NAMES.index(m) > lo]
                if cand:
                    m = r.choice(cand)
                    a, t = self.args(m)
                    out.append({'k': 'call', 'n': m, 'a': a, 'as': t,
                                'f': 'inline', 'b': self.items(
                                    d - 1, macros, NAMES.index(m), defbody)})
            elif k == 'src':
                out.append({'k': 'src'})
            elif k == 'arg' and defbody['ps']:
                out.append({'k': 'arg', 'n': r.choice(sorted(defbody['ps']))})
            elif k == 'when' and defbody['ps'] and d:
                out.append({'k': 'when', 'n': r.choice(sorted(defbody['ps'])),
                            's': r.choice(['A', 'b', '']),
                            'b': self.items(d - 1, macros, lo, defbody)})
            elif k == 'via' and macros and not defbody.get('novia'):
                # called as a function, a macro gets the text only; its own
                # must not bring calls (of macros in whose body it may stand)
                cand = [m for m in macros
                        if not has(self.macs[m]['b'], ('call', 'via'))]
                if cand:
                    out.append({'k': 'via', 'n': r.choice(cand)})
        return out or [self.text(bool(defbody))]

    def macro(self, n, via, known):
        r = self.r
        d = {'n': n, 'via': via, 'paren': r.random() < .5,
             'ps': {p: r.choice(['dp', 'A', ''])
                    for p in 'pq' if r.random() < .4}}
        if via != 'dir' and not d['ps'] and r.random() < .4:
            d['via'] = via = 'plain'
        b = self.items(2, known, -1, d)
        if via not in ('dir', 'plain') and r.random() < .4:
            b.append({'k': 'eol'})
        d['b'] = b
        self.macs[n] = d
        return d

    def doc(self, base):
        r = self.r
        self.macs = {n: self.macs[n] for n in base}
        known = list(base)
        free = [n for n in NAMES if n not in known]
        out = []
        bol = True
        flat = True
        for _ in range(r.randint(2, 6)):
            k = r.choice(['def', 'pre', 'call', 'call', 'call', 'items',
                          'items'])
            if k == 'def' and free:
                n = free.pop(0)
                if r.random() < .3:
                    out += [{'k': 't', 's': 'u'}, {'k': 'pre', 'n': n}]
                    bol = False
                f = r.choice(['inline', 'block', 'short'])
                if f != 'inline' and not bol:
                    out.append({'k': 't', 's': '.\n'})
                d = self.macro(n, 'dir', list(known))
                if f == 'block':
                    d['b'].append({'k': 't', 's': '.\n'})
                out.append({'k': 'def', 'd': d, 'f': f})
                flat = flat and f == 'inline'
                bol = f != 'inline'
                known.append(n)
            elif k == 'pre' and free:
                out += [{'k': 't', 's': 'u'},
                        {'k': 'pre', 'n': r.choice(free)}]
                bol = False
            elif k == 'call' and known:
                m = r.choice(known)
                a, t = self.args(m)
                f = r.choice(['inline', 'block', 'short'])
                if f != 'inline':
                    flat = False
                    if not bol:
                        out.append({'k': 't', 's': 'w\n'})
                b = self.items(2, known, NAMES.index(m))
                if f != 'inline':
                    b = [{'k': 't', 's': r.choice(['o', 'o', '  o', '\to'])}] \
                        + b + [{'k': 't', 's': r.choice(['e', 'e', 'e  '])}]
                out.append({'k': 'call', 'n': m, 'a': a, 'as': t, 'f': f,
                            'b': b})
                if r.random() < .2:     # the same once more
                    out.append(out[-1])
                bol = f != 'inline'
            else:
                out += self.items(2, known, -1)
                bol = False
        return {'op': 'doc', 'doc': out,
                'wrap': r.choice(['', '', 'def', 'block']) if flat else ''}

    def case(self):
        r = self.r
        base = []
        ds = []
        for n in NAMES[:r.randint(0, 3)]:
            ds.append(self.macro(n, r.choice(['fn', 'obj', 'meth']),
                                 list(base)))
            base.append(n)
        keep = dict(self.macs)
        ops = []
        for _ in range(r.randint(1, 3)):
            while True:
                self.macs = dict(keep)
                o = self.doc(base)
                try:
                    cost(o['doc'], self.macs)
                    break
                except TooBig:
                    pass
            ops.append(o)
        return {'cfg': {'macros': ds, 'L': ['l1', 'l2'][:r.randint(0, 2)],
                        'env': {'x': 'X', 'y': '<Y>', 'z': 'Z z'}},
                'ops': ops}


def main():
    ck = vf.Check('C21')
    if os.path.exists(os.path.join(vf.SPEC, 'MacrosMC.tla')):
        sm.replay(ck, 'macro', 'MacrosMC', None, limit=ck.n(3000, 0))
    cases = [G(ck.rng).case() for _ in range(ck.n(3000, 50000))]
    sm.judge(ck, 'macro', 'MacrosTrace', cases)
    ck.finish()


vf.main(main)
