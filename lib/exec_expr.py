"""Evaluate expression trees (spec/Expr.tla) inside real templates."""
import random
import warnings
from Cheetah.Template import Template
from Cheetah.Parser import ParseError
from Cheetah.Filters import Filter

warnings.simplefilter('ignore')

ATOMS = {'S0': 'it\'s #1 "x"', 'S1': '$a) ]}', 'S2': "'''", 'S3': '\\',
         'S4': 'a\nb', 'S5': '##c', 'S6': '#*', 'S7': '\u00e9', 'S8': '"""',
         'S9': '\\n', 'S10': '${a}', 'S11': "c'$a'", 'S12': '%s', 'S13': ':',
         'S14': '#end if#', 'S15': ',', 'S16': '=', 'S17': '\t',
         'S18': 'or else if', 'S19': ' then ',
         'C0': 'x', 'C1': ' - ', 'C2': '#', 'C3': '(', 'C4': '}', 'C5': '5',
         'C6': '.', 'C7': 'th'}


def conc(pieces):
    return ''.join(ATOMS.get(p, p) for p in pieces)


class O(object):
    def __init__(self, **k):
        self.__dict__.update(k)

    n = 7

    def m(self, x=1):
        if isinstance(x, (int, bool)):
            return x + 10
        raise TypeError('m')


def make_env():
    def f(*a, **k):
        return ('f', a, k)

    def g():
        return 4

    def h():
        return f

    def it(v):
        return v
    o = O()
    o.l = [4, 5]
    o.s = ATOMS['S1']
    o.me = lambda: o
    d = {'k': 5, 'm': [7, 8], 'g': g, ATOMS['S0']: 6}

    class P(object):
        pass
    p = P()
    p.o, p.d, p.g, p.it = o, d, g, it
    fns = {'f': f, 'g': g, 'h': h, 'o': o, 'p': p, 'it': it}
    env = {'a': 3, 'z': 0, 's': ATOMS['S0'], 'e': '', 'l': [1, 2, 3], 'd': d,
           'o': o, 'p': p, 'f': f, 'g': g, 'h': h, 't': (1, ATOMS['S1']),
           'no': None, 'yes': True}
    return env, fns


def value(v, fns):
    t = v['t']
    if t in ('i', 'b'):
        return v['v']
    if t == 's':
        return conc(v['v'])
    if t == 'l':
        return [value(x, fns) for x in v['v']]
    if t == 't':
        return tuple(value(x, fns) for x in v['v'])
    if t == 'd':
        return {value(k, fns): value(x, fns) for k, x in v['v']}
    if t == 'n':
        return None
    if t == 'f' and v['v'] in ('m', 'me'):
        return Method(v['v'])
    return fns[v['v']]


class Method(object):
    def __init__(self, n):
        self.n = n

    def __eq__(self, x):
        return callable(x)


def same(a, b):
    if isinstance(a, Method):
        return callable(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return len(a) == len(b) and all(
            k in b and same(a[k], b[k]) for k in a)
    return a == b


class Un(object):
    """Writes a tree down, with random spacing, line breaks and quoting."""

    def __init__(self, rng, eol, calm=False):
        self.r = rng
        self.eol = eol
        self.calm = calm

    def ws(self, inb):
        x = self.r.random()
        if self.calm or x < .7:
            return ''
        if x < .9 or not inb:
            return ' '
        return self.r.choice([self.eol, ' ' + self.eol + '  ', '\t'])

    def sp(self, inb):
        """at least one blank"""
        x = self.r.random()
        if self.calm or x < .8:
            return ' '
        if inb:
            return self.r.choice([self.eol, '  ', '\t', self.eol + self.eol])
        if self.eol == '\r':
            # a continuation over a lone CR inside a call is not specified
            return self.r.choice(['  ', '\t'])
        return self.r.choice(['  ', '\t', '\\' + self.eol,
                              ' \\' + self.eol + ' '])

    def string(self, pieces):
        s = conc(pieces)
        q = self.r.choice(["'", '"', "'''", '"""'])
        out = ''
        for i, c in enumerate(s):
            if c == '\\':
                out += '\\\\'
            elif c == '\n':
                out += '\n' if len(q) == 3 and self.eol == '\n' and \
                    self.r.random() < .5 else '\\n'
            elif c == q[0]:
                out += '\\' + c
            elif ord(c) > 126 and self.r.random() < .4:
                out += '\\u%04x' % ord(c)
            else:
                out += c
        return q + out + q

    def trailers(self, tr, gap=False):
        s = ''
        for t in tr:
            if gap and not t['k'] == 'attr':
                s += self.ws(False)
            if t['k'] == 'attr':
                s += '.' + t['n']
            elif t['k'] == 'idx':
                s += '[' + self.ws(1) + self.e(t['a'], 0, 1) + self.ws(1) + ']'
            elif t['k'] == 'slice':
                s += '[' + self.ws(1)
                if t['lo']:
                    s += self.e(t['lo'][0], 0, 1)
                s += self.ws(1) + ':' + self.ws(1)
                if t['hi']:
                    s += self.e(t['hi'][0], 0, 1)
                s += ']'
            else:
                a = [self.e(x, 0, 1) for x in t['args']]
                if t['star']:
                    a.append('*' + self.e(t['star'][0], 6, 1))
                for k in t['kw']:
                    nm = k['k']
                    if self.r.random() < .3:
                        nm = '$' + nm
                    a.append(nm + self.ws(0) + '=' + self.ws(1)
                             + self.e(k['e'], 0, 1))
                sep = self.ws(1) + ',' + self.ws(1)
                s += '(' + self.ws(1) + sep.join(a) + self.ws(1) + ')'
        return s

    def e(self, x, p, inb):
        k = x['e']
        if k == 'int':
            s, q = str(x['v']), (9 if x['v'] >= 0 else 8)
        elif k == 'str':
            s, q = self.string(x['v']), 9
        elif k == 'const':
            s, q = x['v'], 9
        elif k == 'name':
            s, q = '$' + x['n'] + self.trailers(x['tr']), 9
        elif k == 'var':
            s, q = x['n'], 9
        elif k == 'dvar':
            s, q = '$' + x['n'] + self.trailers(x['tr']), 9
        elif k == 'py':
            b = x['a']
            if b['e'] in ('list', 'dict', 'tuple', 'comp') or (
                    b['e'] == 'str' and self.r.random() < .5):
                s = self.e(b, 9, inb)
            else:
                s = '(' + self.ws(1) + self.e(b, 0, 1) + self.ws(1) + ')'
            s += self.trailers(x['tr'], gap=True)
            q = 9
        elif k == 'fn':
            d = self.r.choice(['', '$'])
            a = x['a']
            if a['e'] == 'comp' and self.r.random() < .7:
                s = d + x['n'] + '(' + self.ws(1) + self.comp(a) + ')'
            else:
                s = d + x['n'] + '(' + self.ws(1) + self.e(a, 0, 1) + ')'
            q = 9
        elif k == 'bin':
            q = 6 if x['op'] in '+-' else 7
            s = self.e(x['a'], q, inb) + self.ws(inb) + x['op'] \
                + self.ws(inb) + self.e(x['b'], q + 1, inb)
        elif k == 'cmp':
            q = 5
            s = self.e(x['a'], 6, inb)
            for op, y in zip(x['ops'], x['es']):
                if op[0].isalpha():
                    op = self.sp(inb).join(op.split())
                    s += self.sp(inb) + op + self.sp(inb)
                else:
                    s += self.ws(inb) + op + self.ws(inb)
                s += self.e(y, 6, inb)
        elif k in ('and', 'or'):
            q = 3 if k == 'and' else 2
            s = self.e(x['a'], q, inb) + self.sp(inb) + k + self.sp(inb) \
                + self.e(x['b'], q + 1, inb)
        elif k == 'not':
            q = 4
            s = 'not' + self.sp(inb) + self.e(x['a'], 4, inb)
        elif k == 'neg':
            q = 8
            s = '-' + self.ws(inb) + self.e(x['a'], 8, inb)
        elif k == 'if':
            q = 1
            s = self.e(x['a'], 2, inb) + self.sp(inb) + 'if' + self.sp(inb) \
                + self.e(x['c'], 2, inb) + self.sp(inb) + 'else' \
                + self.sp(inb) + self.e(x['b'], 1, inb)
        elif k in ('list', 'tuple'):
            q = 9
            it = [self.e(y, 0, 1) for y in x['l']]
            s = (self.ws(1) + ',' + self.ws(1)).join(it)
            if k == 'list':
                s = '[' + self.ws(1) + s + self.ws(1) + ']'
            else:
                if len(it) == 1 or (it and self.r.random() < .2):
                    s += ','
                s = '(' + self.ws(1) + s + ')'
        elif k == 'dict':
            q = 9
            it = [self.e(a, 0, 1) + self.ws(1) + ':' + self.ws(1)
                  + self.e(b, 0, 1) for a, b in x['l']]
            s = '{' + self.ws(1) + (self.ws(1) + ',' + self.ws(1)).join(it) \
                + self.ws(1) + '}'
        elif k == 'comp':
            q = 9
            s = '[' + self.ws(1) + self.comp(x) + self.ws(1) + ']'
        elif k == 'lam':
            q = 9
            s = '(lambda ' + x['x'] + ':' + self.sp(1) + self.e(x['a'], 0, 1) \
                + ')(' + self.e(x['arg'], 0, 1) + ')'
        elif k == 'cs':
            q = 9
            qt = self.r.choice(["'", '"', "'''", '"""'])
            s = 'c' + qt
            ps = x['ps']
            for i, y in enumerate(ps):
                if y['e'] == 'str':
                    s += conc(y['v'])
                else:
                    t = Un(self.r, self.eol, calm=True).e(y, 0, 0)
                    nxt = ps[i + 1] if i + 1 < len(ps) else None
                    if nxt is not None or self.r.random() < .5:
                        t = '${' + t[1:] + '}'
                    s += t
            s += qt
        if q < p:
            s = '(' + self.ws(1) + s + self.ws(1) + ')'
        return s

    def comp(self, x):
        t = ('$' if self.r.random() < .5 else '') + x['x']
        s = self.e(x['a'], 1, 1) + self.sp(1) + 'for' + self.sp(0 if self.calm
                                                               else 1) \
            + t + self.sp(1) + 'in' + self.sp(1) + self.e(x['it'], 2, 1)
        if x['if']:
            s += self.sp(1) + 'if' + self.sp(1) + self.e(x['if'][0], 2, 1)
        return s


BTAIL = ['', ' ', '.', '. ', '..n', '.5', ')', ']', '}', '{x}', '-1', "'s",
         '"', ':', ',', ';', '\n', '%', '!', '*', '=', '/', '+', ' (1)',
         ' [0]', '\n(1)', '\n.n', '|', '<b>', '\\', '@', '~', '.)', '.(', '.[',
         '.$a', '\\$a', ' . n', '\u00e9', '.\u00e9']
GTAIL = ['th', '_x', '5', 'n', 'if 1']
CTAIL = BTAIL + GTAIL + ['(1)', '[0]', '.n', '.n()', '{', '(', '[']


class RecFilter(Filter):
    def filter(self, val, **kw):
        kw.pop('rawExpr', None)
        SEEN.append((val, kw) if kw else val)
        return ''


SEEN = []


def run(case):
    rng = random.Random(case['seed'])
    env, fns = make_env()
    eol = rng.choice(['\n', '\n', '\n', '\r\n', '\r'])
    x, ctx = case['x'], case['ctx']
    un = Un(rng, eol)
    del SEEN[:]
    tail = ''
    want_out = None
    exp = case['v']
    err = exp['t'] == 'err'
    want = None if err else value(exp, fns)
    wants = [want]

    def rec(v=None, **kw):
        SEEN.append(kw['k'] if kw else v)
        return None
    env['rec'] = rec

    def keep(v):
        SEEN.append(v)
        return v
    env['keep'] = keep
    noneless = want is None
    if ctx == 'bare':
        t = un.e(x, 0, 0)
        cand = BTAIL + (GTAIL if t[-1] in ')]' else [])
        tail = rng.choice(cand)
        if eol != '\n':
            tail = tail.replace('\n', eol)
        src = 'A' + t + tail
        pre = rng.choice(['', '', '*', '*5s*'] + ([] if err else ['!']))
        src = 'A$' + pre + t[1:] + tail
        want_out = 'A' + tail
        if tail == '.$a':
            wants.append(3)
            want_out = 'A.'
        elif tail == '\\$a':
            want_out = 'A$a'
        if noneless:
            wants = wants[1:]
    elif ctx in ('brace', 'paren', 'bracket'):
        o, c = {'brace': '{}', 'paren': '()', 'bracket': '[]'}[ctx]
        t = un.e(x, 0, 1)
        if t.startswith(('not', 'c"', "c'", 'sum')):
            # a leading word would be taken as the placeholder's name
            t = '(' + t + ')'
        lead = x
        while lead['e'] in ('bin', 'cmp', 'and', 'or') or (
                lead['e'] == 'if'):
            lead = lead['a']
        if t.startswith('$') and lead['e'] in ('name',) \
                and (lead is x or lead is x.get('a')):
            t = t[1:]
        tail = rng.choice(CTAIL)
        want_out = 'A' + tail
        if tail == '.$a':
            wants.append(3)
            want_out = 'A.'
        elif tail == '\\$a':
            want_out = 'A$a'
        if noneless:
            wants = wants[1:]
        pre = rng.choice(['', '', '', '*']) if not x['e'] == 'cs' else ''
        src = 'A$' + pre + o + rng.choice(['', ' ']) + t \
            + rng.choice(['', ' ']) + c + tail
    elif ctx == 'fargs':
        t = un.e(x, 0, 1)
        src = 'A${' + t[1:] + ', q=1 + $a}B'
        want_out = 'AB'
        wants = [] if noneless else [(want, {'q': 4})]
    elif ctx == 'echo':
        src = '#echo ' + un.e(x, 0, 0) + eol + 'B'
        want_out = 'B'
        if noneless:
            wants = []
    elif ctx == 'echoc':
        src = 'A #echo ' + un.e(x, 0, 0) + '#B'
        want_out = 'A B'
        if noneless:
            wants = []
    elif ctx == 'set':
        src = '#set $zz = ' + un.e(x, 0, 0) + eol + '#silent $rec(zz)' + eol
    elif ctx == 'setc':
        src = 'A#set $zz = ' + un.e(x, 0, 0) + '#B#silent $rec(zz)#'
        want_out = 'AB'
    elif ctx == 'silent':
        src = '#silent $rec(' + un.e(x, 0, 1) + ')' + eol + 'B'
        want_out = 'B'
    elif ctx == 'kw':
        src = '#silent $rec(k=' + un.e(x, 0, 1) + ')' + eol + 'B'
        want_out = 'B'
    elif ctx == 'star':
        src = '#silent $rec(*[' + un.e(x, 0, 1) + '])' + eol + 'B'
        want_out = 'B'
    elif ctx == 'for':
        src = '#for $zz in [' + un.e(x, 0, 1) + ']' + eol + '#silent ' \
            '$rec(zz)' + eol + 'L' + eol + '#end for' + eol
        want_out = 'L' + eol
    elif ctx == 'return':
        src = '#def mm' + eol + '#return ' + un.e(x, 0, 0) + eol + '#end def' \
            + eol + '#silent $rec(self.mm())' + eol
    elif ctx in ('if', 'ifc', 'elif', 'unless', 'then', 'while', 'assert'):
        t = un.e(x, 0, 0)
        tr = case['truth']
        wants = []
        if rng.random() < .5:
            t = '$keep(' + un.e(x, 0, 1) + ')'
            wants = [want]
        if ctx == 'if':
            src = '#if ' + t + eol + 'T' + eol + '#else' + eol + 'F' + eol \
                + '#end if' + eol
            want_out = ('T' if tr else 'F') + eol
        elif ctx == 'ifc':
            src = 'A#if ' + t + '#T#else#F#end if#B'
            want_out = 'A' + ('T' if tr else 'F') + 'B'
        elif ctx == 'elif':
            src = '#if 0' + eol + 'Z' + eol \
                + rng.choice(['#elif ', '#else if ']) + t + eol + 'T' + eol \
                + '#else' + eol + 'F' + eol + '#end if' + eol
            want_out = ('T' if tr else 'F') + eol
        elif ctx == 'unless':
            src = '#unless ' + t + eol + 'T' + eol + '#end unless' + eol
            want_out = '' if tr else 'T' + eol
        elif ctx == 'while':
            src = '#while ' + t + eol + 'T' + eol + '#break' + eol \
                + '#end while' + eol
            want_out = 'T' + eol if tr else ''
        elif ctx == 'assert':
            src = '#assert ' + t + eol + 'T'
            want_out = 'T'
            if not err and not tr:
                err = True
        else:
            if not wants:
                t = un.e(x, 2, 0)
            src = '#if ' + t + ' then "T" else "F"' + eol
            wants = wants + ['T' if tr else 'F']
            want_out = None
    try:
        c = Template.compile(src, cacheCompilationResults=False)
    except Exception as e:
        return {'src': src, 'compile': '%s: %s' % (type(e).__name__,
                                                  str(e)[:300])}
    try:
        got = str(c(searchList=[env], filter=RecFilter))
    except (ParseError, SyntaxError) as e:
        return {'src': src, 'exc': repr(e)[:200]}
    except Exception as e:
        if err:
            return {'ok': 1}
        return {'src': src, 'exc': repr(e)[:200], 'want': repr(wants)}
    if err:
        return {'src': src, 'got': repr(SEEN), 'want': 'an exception'}
    if len(SEEN) != len(wants) or not all(same(a, b)
                                          for a, b in zip(wants, SEEN)):
        return {'src': src, 'got': repr(SEEN), 'want': repr(wants)}
    if want_out is not None and got != want_out:
        return {'src': src, 'got': got, 'want': want_out}
    return {'ok': 1}
