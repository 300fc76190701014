"""C15 error policy: error catchers and silent placeholders."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'lib'))
sys.path.insert(0, os.path.dirname(__file__))
import vf, vm, vmgen, vmlang  # noqa: E401,E402
from vmgen import S, c, meth, var  # noqa: E402

FEAT = dict(text=5, put=9, echo=1, set=2, gset=1.5, ec=3, block=1.5, super=1.5,
            sil=1, **{'return': .3, 'raise': .5, 'stop': .2, 'if': 1.5,
                      'for': 2, 'try': 2, 'capture': 1, 'call': .7,
                      'filter': 1, 'putm': 4, 'setm': 1, 'upm': .5},
            missing=3, elses=1)
NAMES = ['x', 'y', 'z', 'g1', 'nope', 'nix', 'vanish', 'X', 'Nope']


def odd(raw, e):
    return {'s': 'put', 'e': e, 'raw': raw, 'st': 'b'}


def call(f, *a):
    return {'e': 'call', 'f': f, 'args': list(a)}


# placeholders with text in them that is hard on generated code; `w1` is in the
# caller's namespace and in no other, `w2` in none
ODD = [odd(raw, e) for raw, e in [
    ("${ident('a\\nb')}", call('ident', c(S('a\nb')))),
    ("$ident('a\\\\b')", call('ident', c(S('a\\b')))),
    ("$ident(\"it's\")", call('ident', c(S("it's")))),
    ("$ident(\"q'''q\")", call('ident', c(S("q'''q")))),
    ("$ident('''x''')", call('ident', c(S('x')))),
    ("$ident('\"\"\"')", call('ident', c(S('"""')))),
    ("$ident(r'\\d')", call('ident', c(S('\\d')))),
    ("$ident('%s%%')", call('ident', c(S('%s%%')))),
    ("${ident(\n  'é')}", call('ident', c(S('é')))),
    ("${up((lambda: $w1)())}", call('up', var('w1'))),
    ("${up((lambda: $w2)())}", call('up', var('w2'))),
    ("${up([$w1 for q in (1, 2)])}",
     call('up', {'e': 'list', 'l': [var('w1'), var('w1')]})),
    ("${up(list($w1 for q in (1, 2)))}",
     call('up', {'e': 'list', 'l': [var('w1'), var('w1')]})),
    ("$up($w2)", call('up', var('w2'))),
    ("${up($w2, )}", call('up', var('w2'))),
    ("$ident('$w2')", call('ident', c(S('$w2')))),
    ("$w2('''a''', \"b\")", call('w2', c(S('a')), c(S('b')))),
    ("$w2('\\n')", call('w2', c(S('\n')))),
    ("$w2[0].a.b('x')", var('w2')),
    ("${w2.q}", var('w2')),
]]


def fill(s):
    """a body holding nothing but the end of an errorCatcher is empty"""
    bodies = [s[f] for f in ('body', 'els', 'fin') if s.get(f)]
    bodies += [q['body'] for f in ('cs', 'ex', 'parts') for q in s.get(f, ())]
    for b in bodies:
        if all(x['s'] == 'ec' and x['f'] == '' for x in b):
            b.append({'s': 'text', 'v': 'w'})
        for x in b:
            fill(x)


def positions(M, rng):
    """numbers a method's placeholders and errorCatcher directives in source
    order and fixes the placeholders' texts"""
    ecs, n = [], [0]
    u = vmlang.Unparser(rng.randrange(10**6))

    def walk(ss):
        for s in ss:
            n[0] += 1
            if s['s'] == 'ec':
                ecs.append({'p': n[0], 'on': s['f'] != ''})
            elif s['s'] in ('put', 'putm', 'upm'):
                on = bool(ecs) and ecs[-1]['on']
                if on:
                    s.pop('sil', None)      # silent and caught: not defined
                s['p'] = n[0]
                s['raw'] = s.get('raw') or u.stmt(s, 'i')
            for q in s.get('cs', ()):
                walk(q['body'])
            walk(s.get('body', ()))
            for q in s.get('parts', ()):
                walk(q['body'])
            for q in s.get('ex', ()):
                walk(q['body'])
            walk(s.get('els', ()))
            walk(s.get('fin', ()))
    for s in list(M['body']):
        fill(s)
    walk(M['body'])
    M['ecs'] = ecs


def gen_class(rng, known, named):
    ms = {}
    order = ['respond', 'b1', 'm1', 'm2', 'm3']
    used = []
    for j, n in enumerate(order):
        if n == 'b1' and 'b1' not in used:
            continue
        if n not in ('respond', 'b1') and rng.random() < .35:
            continue
        callee = {m: [] for m in order[max(j + 1, 2):]}
        g = vmgen.Gen(rng, FEAT, depth=2, maxlen=3, names=NAMES, meths=callee)
        g.blocks = ['b1'] if n == 'respond' else []
        ctx = frozenset(['super']) if n in known else frozenset()
        body = vmgen.prep(g.seq(2, ctx, 1, 5))
        used += g.used
        if rng.random() < .5:
            body.insert(0, {'s': 'ec', 'f': rng.choice(
                ['Echo', 'Echo', 'BigEcho', 'ListErrors', 'KeyError']),
                'st': 'b'})
        for _ in range(rng.choice([0, 0, 1, 2])):
            body.insert(rng.randint(0, len(body)), dict(rng.choice(ODD)))
        if rng.random() < .3:       # placeholders that are nearly the same
            a, b = rng.choice([('x', 'X'), ('nope', 'Nope'), ('y', 'nix'),
                               ('X', 'x'), ('nope', 'nope')])
            q = rng.randint(0, len(body))
            body[q:q] = [{'s': 'put', 'e': {'e': 'v', 'x': a}, 'st': 'b'},
                         {'s': 'put', 'e': {'e': 'v', 'x': b}, 'st': 'b'}]
        if n != 'respond' and rng.random() < .3:
            body.append({'s': 'putm', 'f': 'nosuch',
                         'args': [c(S('a'))], 'st': 'b'})
        ms[n] = meth([], body)
    for M in ms.values():
        positions(M, rng)
    k = {'base': 0, 'meths': ms, 'attrs': {}, 'blocks': used}
    if named:
        k['kw'] = {'className': 'Tmpl'}
    return k


def case(rng):
    named = rng.random() < .3
    k = gen_class(rng, (), named)
    w = {'cls': [k], 'objs': [{'cls': 1, 'sl': [1], 'filt': rng.choice(
        ['Filter', 'Filter', 'WebSafe', 'Brackets'])}],
         'ns': [dict(vmgen.std_ns(rng), w1=S('W'))]}
    if rng.random() < .35:
        # a derived class of the same class name, as compiling gives it
        d = gen_class(rng, set(k['meths']), named)
        d['base'] = 1
        w['cls'].append(d)
        w['objs'].append(dict(w['objs'][0], cls=2))
    if rng.random() < .3:
        w['objs'].append(dict(w['objs'][-1]))
    ops = []
    for _ in range(rng.choice([1, 2, 3])):
        if ops and rng.random() < .2:
            ops.append({'op': 'ns', 'n': 1, 'x': rng.choice(NAMES),
                        'v': S('now <here>')})
        ops.append(vmgen.render(rng.randint(1, len(w['objs'])),
                                rng.random() < .2))
        if rng.random() < .5:
            ops.append({'op': 'errors', 'o': ops[-1]['o']})
    for o in w['objs']:
        if rng.random() < .25:
            o['ec'] = rng.choice(['Echo', 'BigEcho', 'ListErrors', 'KeyError'])
    return {'w': w, 'ops': ops, 'seed': rng.randrange(10**6)}


def main():
    ck = vf.Check('C15')
    cases = [case(ck.rng) for _ in range(ck.n(2500, 40000))]
    h = len(cases) // 6
    vm.judge(ck, cases[h:], mode='c', what='history')
    vm.judge(ck, cases[:h], mode='pure', what='history')
    ck.finish()


if __name__ == '__main__':
    vf.main(main)
