"""C03 text outside constructs reaches the output verbatim."""
import os, sys, random
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'lib'))
import vf  # noqa: E401,E402

BLOCKS = ['if 1', 'unless 0', 'for i in [1]', 'repeat 1', 'while 0',
          'filter None', 'cache', 'block b', 'def d', 'capture w', 'try']
ENDS = ['end if', 'end unless', 'end for', 'end repeat', 'end while',
        'end filter', 'end cache', 'end block', 'end def', 'end capture',
        'end try']
PLAIN = ['silent 1', 'pass', 'set q = 1', 'import os', 'assert 1',
         'attr u = 3', 'echo 7']
NASTY = ["'", '"', "'''", '"""', '%s', '{0}', '\\n', '\\012', '\\x41',
         '\u00e9\u4e2d', '%(a)s', '\\\\', "\\'", '%', '{', '\\', '<', '&',
         '\x0c', '\x0b', '\x1c', '\x85', '\u2028', ':', '=', '\\u0041',
         '\\N{DASH}', '-', '+x+', '\U0001f600', '\x00x', '\x7f']
TOKENS = [
    {},
    {'$': ';', '#': '%'},
    {'$': '$', '#': '~'},
    {'$': '&', '#': '^'},
    {'$': '$$', '#': '#'},
    {'$': '|', '#': '+'},
    {'$': '^:', '#': '?'},
]


def tstr(x):
    return '"' + x.replace('\\', '\\\\').replace('"', '\\"').replace(
        '\n', '\\n').replace('\t', '\\t') + '"'


def tup(x):
    return '<<' + ', '.join(tstr(i) for i in x) + '>>'


def sset(x):
    return '{' + ', '.join(tstr(i) for i in x) + '}'


def config(rng):
    """A way to write the symbols down: tokens, line ends, nasty text."""
    tok = TOKENS[0] if rng.random() < .5 else rng.choice(TOKENS)
    m = dict(tok)
    d, v = m.get('#', '#'), m.get('$', '$')
    cfg = {}
    if tok:
        cfg['settings'] = {
            'cheetahVarStartToken': v, 'directiveStartToken': d,
            'directiveEndToken': d, 'commentStartToken': d + d,
            'multiLineCommentStartToken': d + '*',
            'multiLineCommentEndToken': '*' + d, 'EOLSlurpToken': d}
    m['\n'] = '\n' if rng.random() < .5 else rng.choice(['\n', '\r\n', '\r'])
    x = rng.choice(NASTY)
    m['t'] = x
    cfg['map'] = m
    return cfg


def ok_for(cfg, src):
    """Symbols that the configuration's own tokens would re-interpret."""
    m = cfg['map']
    own = set(m.get('$', '$') + m.get('#', '#'))
    if any(own & set(x) for x in src if x not in ('$', '#', 't')):
        return False
    if own & set(m['t']):
        return False
    if m['t'][0].isalpha() or m['t'][0] in '{([*!@':
        if any(b == 't' and a in ('$', '#') for a, b in zip(src, src[1:])):
            return False
    if m['t'][0].isspace() and '#' in src:
        return False          # whitespace of other kinds: not specified
    if m['t'][0] == '-' and any(len(a) > 1 and b == 't'
                                for a, b in zip(src, src[1:])):
        return False          # '-' may be part of a directive's name
    if '\x00' in m['t'] and '#' in src:
        return False          # not allowed in generated comments
    if m.get('#') == '%' and m['t'] == '<':
        return False          # that is PSP
    if m['t'].endswith('\\'):
        for a, b in zip(src, src[1:]):
            if a == 't' and b in ('$', '#', '*'):
                return False
    return True


def run(ck, recs):
    cases = []
    for r in recs:
        for _ in range(5):
            cfg = config(ck.rng)
            if ok_for(cfg, r['src']):
                break
        else:
            cfg = {'map': {'t': '='}}
        cases.append({'cfg': cfg, 'src': r['src'], 'out': r['out'],
                      'what': r['what']})
    obs = ck.run_cases('lex', cases)
    for c, o in zip(cases, obs):
        ck.validated += 1
        if not o.get('ok'):
            ck.violate('verbatim/' + c['what'], {'cfg': c['cfg'], 'src': c['src']},
                       o.get('want', ''.join(c['out'])), o)


JOBS = []


def enum(*a, **k):
    JOBS.append((a, k))


def flush(ck):
    with ThreadPoolExecutor(4) as ex:
        res = list(ex.map(lambda j: tlc(*j[0], **j[1]), JOBS))
    recs = []
    for what, depth, tot, r in res:
        ck.log('%s depth %d: %d templates decided, %d run'
               % (what, depth, tot, len(r)))
        for x in r:
            x['what'] = what
        recs += r
    run(ck, recs)


def tlc(ck, what, alpha, depth, pre=(), post=(), limit=None, inv=True,
         emitall=False):
    name = 'LexerEnumRun'
    mod = ('---- MODULE %s ----\nEXTENDS LexerEnum\nAlphaV == %s\nPreV == %s\n'
           'PostV == %s\n====\n' % (name, sset(alpha), tup(pre), tup(post)))
    cfg = ('CONSTANTS Depth = %d Alpha <- AlphaV Pre <- PreV Post <- PostV '
           'EmitAll = %s\nINIT Init\nNEXT Next\n'
           % (depth, 'TRUE' if emitall else 'FALSE'))
    if inv:
        cfg += ('INVARIANTS Verbatim Escaped RawText Lines NoInvention '
                'Total\n')
    res = ck.tlc(name, cfg, workers=2, heap='3g', extra_modules={name: mod})
    recs = res.records
    tot = len(recs)
    if limit and tot > limit:
        recs.sort(key=lambda r: r['src'])
        recs = random.Random('%s %s' % (what, ck.seed)).sample(recs, limit)
    if recs:
        ck.sample(recs[len(recs) // 2])
    return what, depth, tot, recs


def piece(rng, depth):
    """A construct, laid out in a random way."""
    ind = rng.choice([[], [], [' '], ['\t', ' '], ['a', ' '], ['t']])
    close = rng.choice([['\n'], ['\n'], [' ', '\n'], ['#'], [' ', '#'],
                        ['#', '\n'], [' ', '#', '#', 'a', '\n'],
                        ['#', ' ', '\n']])
    x = rng.random()
    if x < .25:
        return [rng.choice(['a', 't', ' ', '\n', '5', '.', '\\', '*', '{', '}',
                            '$', '#', 'slurp', 'silent 1', 'raw'])
                for _ in range(rng.randint(1, 4))]
    if x < .4:
        return ind + rng.choice([['$', 'v'], ['$', '{', 'v', '}'],
                                 ['$', '!', 'v'], ['$', '*', 'a'],
                                 ['$', '{', ' ', 'n', ' ', '}'],
                                 ['$', 'v', '5'], ['$', '{', 'a', '}', 'a'],
                                 ['$', '{', 'a', '}', '(']]) + ['t']
    if x < .5:
        return ind + rng.choice(
            [['#', '#', 'a', '$', 'v', '\n'], ['#', '*', 'a', '*', '#'],
             ['#', '*', '\n', '#', '*', '*', '#', '\n', '*', '#', '\n'],
             ['#', '*', ' ', '*', '#', ' ', '\n'], ['#', '\n'],
             ['#', ' ', '\n'], ['#', 'slurp', '\n'],
             ['#', 'slurp', 'a', '\n'], ['\\', '#', 'silent 1'],
             ['\\', '$', 'v'], ['\\', '#', '#'], ['\\', '#', '*']])
    if x < .7:
        return ind + ['#', rng.choice(PLAIN)] + close
    if x < .8:
        body = [rng.choice(['a', 't', ' ', '\n', '$', '#', '\\', 'v', '*',
                            'silent 1', 'raw', 'end if', '\t'])
                for _ in range(rng.randint(0, 6))]
        if rng.random() < .3:
            return ind + ['#', 'raw'] + rng.choice([[], [' ']]) + [':'] \
                + [q for q in body if q != '\n'] + ['\n']
        return ind + ['#', 'raw'] + rng.choice([['\n'], ['#'], [' ', '\n']]) \
            + body + rng.choice([[], ['\n'], ['\n', ' ']]) + ['#', 'end raw'] \
            + rng.choice([['\n'], ['#'], [' ', '\n']])
    if depth <= 0:
        return ind
    i = rng.randrange(len(BLOCKS))
    body = []
    for _ in range(rng.randint(1, 3)):
        body += piece(rng, depth - 1)
    if BLOCKS[i] == 'try':
        body += rng.choice([[], [' ']]) + ['#', 'finally'] + rng.choice(
            [['\n'], ['#'], [' ', '\n']]) + ['t', '\n']
    return ind + ['#', BLOCKS[i]] + close + ['a'] + body \
        + rng.choice([[], ['\n'], ['\n', ' ']]) + ['#', ENDS[i]] \
        + rng.choice([['\n'], ['#'], [' ', '\n']])


def long_cases(ck, n):
    out = []
    for _ in range(n):
        s = []
        for _ in range(ck.rng.randint(1, 6)):
            s += piece(ck.rng, 2)
        if len(s) <= 90:
            out.append({'src': s})
    return out


def longs(ck, n):
    cases = long_cases(ck, n)
    f = vf.ndjson(ck.path('lex.ndjson'), cases)
    recs = []
    res = ck.tlc('LexerRun', 'INIT Init\nNEXT Next\n', env={'CASES': f})
    for r in res.records:
        if r['fl'] == 'done':
            recs.append({'src': cases[r['h'] - 1]['src'], 'out': r['out'],
                         'what': 'long'})
    done = len(recs)
    run(ck, recs)
    ck.log('long: %d templates, %d decided by the specification'
           % (len(cases), done))
    if done < len(cases) // 4:
        raise vf.MachineryError('too many generated templates are left open')


def main():
    ck = vf.Check('C03')
    lim = ck.n(6000, 60000)
    q = ck.n(0, 1)
    # plain text, whatever it looks like to Python
    enum(ck, 'text', ['\\', 'n', '0', "'", '"', '\n', 't'], 5 + q, limit=lim,
         inv=False)
    enum(ck, 'text2', ['%', 's', '{', '}', '\\', '\n', '0'], 4 + q,
         limit=lim, inv=False)
    # the start tokens, in and out of constructs
    enum(ck, 'tokens', ['$', '#', '\\', 'v', ' ', '\n', '*', 't'], 5 + q,
         limit=2 * lim)
    enum(ck, 'placeholder', ['$', '{', '}', 'v', '5', '.', ' ', '*', '!'],
         5 + q, limit=lim, inv=False)
    enum(ck, 'comment', ['#', '*', '\n', ' ', 'a', '\\'], 6 + q, limit=lim)
    enum(ck, 'mlcomment', ['#', '*', '\n', ' ', 'a'], 5 + q,
         pre=['#', '*'], post=['*', '#', 'a'], limit=lim, inv=False)
    enum(ck, 'directive', ['#', 'silent 1', 'echo 7', ' ', '\n', 'a', '\\'],
         5 + q, limit=2 * lim)
    enum(ck, 'slurp', ['#', 'slurp', ' ', '\n', 'a', '$', 'v'], 5 + q,
         limit=lim)
    enum(ck, 'raw', ['#', 'end raw', ' ', '\n', 'a', '\\', '$', 'v'], 4 + q,
         pre=['#', 'raw', '#'], post=['#', 'end raw', '#', '\n'], limit=lim,
         inv=False)
    enum(ck, 'rawlayout', ['#', 'raw', 'end raw', ' ', '\n', 'a'], 5 + q,
         pre=['a', '\n'], post=['\n', ' ', '#', 'end raw', '\n', 'a'],
         limit=lim, inv=False)
    enum(ck, 'rawline', [' ', '\n', 'a', '$', ':', '#', '\\'], 5 + q,
         pre=['a', '\n', ' ', '#', 'raw', ':'], post=['v', '\n', 'a'],
         limit=lim, inv=False)
    # each directive, by itself, in every layout
    for w in PLAIN:
        enum(ck, 'layout/' + w, [' ', '\n', 'a', '#'], 3 + q,
             pre=['a', '\n', ' ', '#', w], limit=ck.n(400, 4000), inv=False,
             emitall=True)
    for a, b in zip(BLOCKS, ENDS):
        fin = ['#', 'finally', '\n', 't', '\n'] if a == 'try' else []
        enum(ck, 'block/' + a, [' ', '\n', 'a', '#'], 3 + q,
             pre=['a', '\n', ' ', '#', a],
             post=['t', '\n'] + fin + [' ', '#', b, '\n', 'a'],
             limit=ck.n(300, 4000), inv=False, emitall=True)
        enum(ck, 'end/' + b, [' ', '\n', 'a', '#'], 3 + q,
             pre=[' ', '#', a, '\n', 'a', '\n'] + fin + ['\t', '#', b],
             limit=ck.n(300, 4000), inv=False, emitall=True)
    flush(ck)
    longs(ck, ck.n(6000, 60000))
    ck.assumptions += [
        'left open: what follows a placeholder as a call, subscript or '
        'attribute; a multi-line comment over several lines with text after '
        'it; whitespace before an explicitly closed directive at the very end '
        'of the template']
    ck.finish()


vf.main(main)
