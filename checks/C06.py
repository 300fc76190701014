"""C06 expressions and placeholders evaluate as their Python counterparts."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'lib'))
import vf  # noqa: E401,E402

NAMES = ['a', 'z', 's', 'e', 'l', 'd', 'o', 'p', 'f', 'g', 'h', 't', 'no',
         'yes']
OPS = ['+', '-', '*', '//', '%']
CMPS = ['==', '!=', '<', '<=', '>', '>=', 'in', 'not in', 'is', 'is not']
STRS = [['S%d' % i] for i in range(20)] + [[], ['k'], ['m'], ['g'], ['x']]
VALUE_CTX = ['brace', 'paren', 'bracket', 'echo', 'echoc', 'set', 'setc',
             'silent', 'kw', 'star', 'for', 'return', 'if', 'ifc', 'elif',
             'unless', 'then', 'while', 'assert']


def I(v):
    return {'e': 'int', 'v': v}


def S(v):
    return {'e': 'str', 'v': v}


def NM(n, *tr):
    return {'e': 'name', 'n': n, 'tr': list(tr)}


def A(n):
    return {'k': 'attr', 'n': n}


def X(a):
    return {'k': 'idx', 'a': a}


def SL(lo=None, hi=None):
    return {'k': 'slice', 'lo': [lo] if lo else [], 'hi': [hi] if hi else []}


def C(*args, kw=(), star=None):
    return {'k': 'call', 'args': list(args),
            'kw': [{'k': k, 'e': e} for k, e in kw],
            'star': [star] if star else []}


def B(op, a, b):
    return {'e': 'bin', 'op': op, 'a': a, 'b': b}


def atoms():
    return [I(2), I(0), S(['S0']), S([]), NM('a'), NM('l'), NM('d'), NM('g'),
            NM('s'), NM('o', A('n')), NM('p', A('o'), A('l')),
            NM('f', C(I(1))), {'e': 'const', 'v': 'None'},
            {'e': 'list', 'l': []}, {'e': 'tuple', 'l': [I(1)]}]


def trailer_chains(depth):
    """Every chain of trailers over a small set, on a few names."""
    tr = [A('n'), A('o'), A('l'), A('d'), A('k'), A('m'), A('g'), A('me'),
          A('it'), X(I(0)), X(S(['k'])), X(S(['g'])), X(NM('a')), C(),
          C(I(1)), C(NM('o')), C(NM('d')), SL(I(1)), C(kw=[('x', I(2))])]
    for n in ('o', 'p', 'd', 'l', 'f', 'h', 'g', 'a', 's', 'missing'):
        for k in range(depth + 1):
            for c in itertools.product(tr, repeat=k):
                yield NM(n, *c)


def level1(at):
    for a, b in itertools.product(at, at):
        for op in OPS:
            yield B(op, a, b)
        for op in CMPS:
            yield {'e': 'cmp', 'a': a, 'ops': [op], 'es': [b]}
        yield {'e': 'and', 'a': a, 'b': b}
        yield {'e': 'or', 'a': a, 'b': b}
        yield {'e': 'py', 'a': a, 'tr': [X(b)]}
        yield {'e': 'dict', 'l': [[a, b]]}
        yield {'e': 'list', 'l': [a, b]}
        yield NM('f', C(a, kw=[('x', b)]))
        yield {'e': 'comp', 'x': 'i', 'it': {'e': 'list', 'l': [a, b]},
               'if': [], 'a': {'e': 'dvar', 'n': 'i', 'tr': []}}
    for a in at:
        yield {'e': 'not', 'a': a}
        yield {'e': 'neg', 'a': a}
        for n in ('n', 'l', 'k'):
            yield {'e': 'py', 'a': a, 'tr': [A(n)]}
        yield {'e': 'lam', 'x': 'i', 'arg': a,
               'a': {'e': 'tuple', 'l': [{'e': 'var', 'n': 'i'}, I(1)]}}
        yield NM('f', C(star=a))
        yield {'e': 'cs', 'ps': [S(['C0']), a]} \
            if a['e'] == 'name' and a['n'] != 'f' else a
    for a, b, c in itertools.product(at[:6], at[4:8], at[:6]):
        yield {'e': 'if', 'c': b, 'a': a, 'b': c}
        yield {'e': 'cmp', 'a': a, 'ops': ['<', '=='], 'es': [b, c]}


class Gen(object):
    def __init__(self, rng):
        self.r = rng

    def chain(self, depth, vars_):
        r = self.r
        n = r.choice(NAMES)
        tr = []
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            x = r.random()
            if x < .4:
                tr.append(A(r.choice(['n', 'o', 'l', 'd', 'k', 'm', 'g',
                                      'me', 'it', 's'])))
            elif x < .6:
                tr.append(X(self.e(depth - 1, vars_)))
            elif x < .7:
                tr.append(SL(self.e(depth - 1, vars_) if r.random() < .6
                             else None,
                             self.e(depth - 1, vars_) if r.random() < .6
                             else None))
            else:
                tr.append(C(*[self.e(depth - 1, vars_)
                              for _ in range(r.choice([0, 1, 1, 2]))],
                            kw=[(k, self.e(depth - 1, vars_))
                                for k in ('x', 'y') if r.random() < .2],
                            star=self.e(depth - 1, vars_)
                            if r.random() < .15 else None))
        return NM(n, *tr)

    def good_chain(self, depth, vars_):
        """A chain that mostly succeeds."""
        r = self.r
        E = lambda: self.e(depth - 1, vars_)   # noqa: E731
        return r.choice([
            lambda: NM('a'), lambda: NM('l', X(I(r.randint(-3, 2)))),
            lambda: NM('d', A('k')), lambda: NM('d', A('m'), X(I(1))),
            lambda: NM('o', A('n')), lambda: NM('o', A('m')),
            lambda: NM('o', A('m'), C(I(r.randint(0, 9)))),
            lambda: NM('p', A('o'), A('me'), A('n')),
            lambda: NM('p', A('it'), C(E())), lambda: NM('f', C(E(), E())),
            lambda: NM('f', C(E(), kw=[('x', E())])),
            lambda: NM('h', C(), C(E())),
            lambda: NM('f', C(E()), X(I(1)), X(I(0))),
            lambda: NM('p', A('it'), C(NM('p')), A('o'), A('n')),
            lambda: NM('d', X(S(['S0']))), lambda: NM('d', X(NM('s'))),
            lambda: NM('l', SL(I(1))), lambda: NM('t', X(I(1))),
            lambda: NM('g'), lambda: NM('d', A('g')),
            lambda: NM('p', A('d'), A('m'), X(I(0))),
            lambda: NM('f', C(star=NM('l')))])()

    def e(self, depth, vars_=()):
        r = self.r
        x = r.random()
        if depth <= 0 or x < .12:
            y = r.random()
            if y < .25:
                return I(r.randint(-3, 12))
            if y < .45:
                return S(r.choice(STRS))
            if y < .5:
                return {'e': 'const', 'v': r.choice(['None', 'True',
                                                     'False'])}
            if vars_ and y < .75:
                v, inner = vars_[-1], True
                if r.random() < .5:
                    return {'e': 'var', 'n': v}
                return {'e': 'dvar', 'n': v, 'tr': []}
            return self.good_chain(0, vars_)
        d = depth - 1
        if x < .35:
            return self.good_chain(depth, vars_) if r.random() < .8 \
                else self.chain(depth, vars_)
        if x < .5:
            return B(r.choice(OPS), self.e(d, vars_), self.e(d, vars_))
        if x < .58:
            n = r.choice([1, 1, 2])
            return {'e': 'cmp', 'a': self.e(d, vars_),
                    'ops': [r.choice(CMPS) for _ in range(n)],
                    'es': [self.e(d, vars_) for _ in range(n)]}
        if x < .66:
            return {'e': r.choice(['and', 'or']), 'a': self.e(d, vars_),
                    'b': self.e(d, vars_)}
        if x < .71:
            return {'e': r.choice(['not', 'neg']), 'a': self.e(d, vars_)}
        if x < .76:
            return {'e': 'if', 'c': self.e(d, vars_), 'a': self.e(d, vars_),
                    'b': self.e(d, vars_)}
        if x < .83:
            return {'e': r.choice(['list', 'tuple']),
                    'l': [self.e(d, vars_) for _ in range(r.randint(0, 3))]}
        if x < .87:
            return {'e': 'dict', 'l': [[self.e(0, vars_), self.e(d, vars_)]
                                       for _ in range(r.randint(0, 2))]}
        if x < .93:
            v = 'i' if 'i' not in vars_ else 'j'
            if v in vars_:
                return self.e(d, vars_)
            c = {'e': 'comp', 'x': v,
                 'it': r.choice([NM('l'), {'e': 'list', 'l': [
                     self.e(0, vars_) for _ in range(r.randint(0, 3))]}]),
                 'if': [self.e(d, vars_ + (v,))] if r.random() < .3 else [],
                 'a': self.e(d, vars_ + (v,))}
            if r.random() < .3:
                return {'e': 'fn', 'n': 'sum', 'a': c}
            return c
        if x < .95:
            v = 'i' if 'i' not in vars_ else 'j'
            if v in vars_:
                return self.e(d, vars_)
            return {'e': 'lam', 'x': v, 'arg': self.e(d, vars_),
                    'a': self.e(d, vars_ + (v,))}
        if x < .98:
            ps = []
            for _ in range(r.randint(0, 4)):
                ps.append(r.choice([
                    lambda: S(['C%d' % r.randint(0, 7)]), lambda: NM('s'),
                    lambda: NM('o', A('s')), lambda: NM('t', X(I(1)))])())
            return {'e': 'cs', 'ps': ps}
        return {'e': 'py', 'a': self.e(d, vars_),
                'tr': [r.choice([X(self.e(0, vars_)), SL(I(0), I(1)),
                                 A('n'), C(self.e(0, vars_))])]}


def dvar_ok(x, scope=None, frames=()):
    """$-names of comprehension variables only where the variable belongs to
    the innermost function (others are not visible to the name lookup)."""
    if isinstance(x, list):
        return all(dvar_ok(y, scope, frames) for y in x)
    if not isinstance(x, dict):
        return True
    if x.get('e') == 'dvar' and x['n'] != scope:
        return False
    if x.get('e') in ('comp', 'lam'):
        it = x['it'] if x['e'] == 'comp' else x['arg']
        return dvar_ok(it, scope) and dvar_ok(x.get('if', []), x['x']) \
            and dvar_ok(x['a'], x['x'])
    return all(dvar_ok(v, scope) for v in x.values())


def decide(ck, exprs, what, nctx=1):
    cases = [{'x': e} for e in exprs]
    f = vf.ndjson(ck.path('expr.ndjson'), cases)
    res = ck.tlc('ExprRun', 'INIT Init\nNEXT Next\nINVARIANT Laws\n',
                 env={'CASES': f})
    todo = []
    opened = 0
    for r in sorted(res.records, key=lambda r: r['h']):
        if r['v']['t'] == 'skip':
            opened += 1
            continue
        x = cases[r['h'] - 1]['x']
        ctxs = list(VALUE_CTX)
        if x['e'] == 'name':
            ctxs += ['bare'] * 10 + ['fargs']
        for c in ck.rng.sample(ctxs, nctx):
            todo.append({'x': x, 'v': r['v'], 'truth': r['truth'], 'ctx': c,
                         'seed': ck.rng.randrange(1 << 30)})
    obs = ck.run_cases('expr', todo)
    for c, o in zip(todo, obs):
        ck.validated += 1
        if not o.get('ok'):
            ck.violate('%s/%s' % (what, c['ctx']), c, o.get('want'), o)
    ck.log('%s: %d expressions, %d left open, %d run'
           % (what, len(cases), opened, len(todo)))
    if todo:
        ck.sample(todo[len(todo) // 2])


def main():
    ck = vf.Check('C06')
    ch = list(trailer_chains(2))
    if ck.thorough():
        ch3 = list(trailer_chains(3))
        ck.rng.shuffle(ch3)
        ch += ch3[:20000]
    decide(ck, ch, 'chains', ck.n(1, 3))
    decide(ck, [S(s) for s in STRS] * 2, 'strings', len(VALUE_CTX))
    l1 = list(level1(atoms()))
    if not ck.thorough():
        ck.rng.shuffle(l1)
        l1 = l1[:5000]
    decide(ck, l1, 'operators')
    g = Gen(ck.rng)
    out = []
    while len(out) < ck.n(9000, 90000):
        e = g.e(ck.rng.choice([1, 2, 2, 3, 3, 4]))
        if dvar_ok(e):
            out.append(e)
    decide(ck, out, 'nested')
    ck.assumptions += [
        'a comprehension variable written as a placeholder inside a nested '
        'lambda or comprehension is left open (name lookup sees one frame)',
        'integers, strings, lists, tuples, dicts, None, booleans, functions '
        'and two objects stand for all values']
    ck.finish()


vf.main(main)
