"""Compiles templates under compiler settings and reports their rendering and
the user's settings dictionaries."""
import re
import sys

from Cheetah.Template import Template
from Cheetah.Filters import Filter

sys.modules['verif_settings'] = sys.modules[__name__]


def f1(src):
    return 'f1(' + src + ')'


def f2(src):
    return 'f2(' + src + ')'


FUN = {'f1': f1, 'f2': f2}
REF = "__import__('verif_settings').%s"
KEY = {'var': ['cheetahVarStartToken'], 'com': ['commentStartToken'],
       'dir': ['directiveStartToken', 'directiveEndToken'],
       'auto': ['useAutocalling'], 'filt': ['useFilters'],
       'mark': ['includeBlockMarkers'], 'an': ['alwaysFilterNone'],
       'psp': ['PSPStartToken', 'PSPEndToken'], 'slurp': ['EOLSlurpToken'],
       'ml': ['multiLineCommentStartToken', 'multiLineCommentEndToken'], 'dm': ['compilerSettingsForDefMacro']}
NAME = {r: k for k, v in KEY.items() for r in v}
BOOL = {'T': True, 'F': False}


class Angle(Filter):
    def filter(self, val, **kw):
        return '<%s>' % (val,)


def fn():
    return 'C'


FN = re.compile(r'<function fn at 0x[0-9a-f]+>')


END = {'PSPEndToken': {'<%': '%>', '{%': '%}'},
       'multiLineCommentEndToken': {'#*': '*#', '(*': '*)'}}


def val(k, v, D2, r=''):
    v = END.get(r, {}).get(v, v)
    return D2 if k == 'dm' else BOOL.get(v, v)


def fill(d, s, D2):
    """give the dictionary d the settings s"""
    d.clear()
    for k in KEY:
        if s[k]:
            for r in KEY[k]:
                d[r] = val(k, s[k], D2, r)
    m = {k: FUN[s[k]] for k in ('m1', 'm2') if s[k]}
    if m:
        d['macroDirectives'] = m


def abstract(d, D2):
    out = dict.fromkeys(list(KEY) + ['m1', 'm2'], '')
    for k, v in d.items():
        if k == 'macroDirectives' and isinstance(v, dict):
            for n, f in v.items():
                out[n] = getattr(f, '__name__', '?')
            continue
        n = NAME.get(k, k)
        v = next((a for a, b in END.get(k, {}).items() if b == v), v)
        w = 'D2' if v is D2 else {True: 'T', False: 'F'}.get(v, v) \
            if isinstance(v, (bool, str)) else repr(v)
        if out.get(n, '') not in ('', w):
            w = '?%s/%s' % (out[n], w)
        out[n] = w
    return out


def config(key, v, sp):
    """a line of a configuration, spelled in one of the ways"""
    if isinstance(v, bool):
        v = [str(v), str(v).lower(), str(v).upper(), str(int(v)),
             'python: %r' % v, 'Python:%d > 0' % v][sp % 6]
    elif sp % 7 == 3:
        v = 'python:' + repr(v)
    return '%s%s%s' % (key, [' = ', ': ', '='][sp % 3], v.replace('%', '%%'))


def directives(it, t):
    """the text of a settings item, t being the directive token"""
    if it['i'] == 'reset':
        return t + ('compiler reset\n' if it['form'] == 'c'
                    else 'compiler-settings reset\n')
    if it['i'] == 'set':
        if it['k'] == 'macro':
            d = '{%s}' % ', '.join(
                "'%s': %s" % (m, REF % it['s'][m]) for m in ('m1', 'm2')
                if it['s'][m])
            return '%scompiler macroDirectives = %s\n' % (t, d)
        out = ''
        for r in KEY[it['k']]:
            v = repr(val(it['k'], it['v'], None, r))
            out += '%scompiler %s = %s\n' % (t, r, v)
            if r == 'directiveStartToken':
                t = it['v']
        return out
    if it['i'] == 'defmacro':
        return '%sdefmacro m3: M3(@src)\n' % t
    s = it['s']
    lines = []
    py = it['form'] == 'python'
    for k in KEY:
        if s[k] and k != 'dm':
            for r in KEY[k]:
                v = val(k, s[k], None, r)
                lines.append('%s = %s' % (r, repr(v)) if py
                             else config(r, v, it.get('sp', 0)))
    m = [(k, s[k]) for k in ('m1', 'm2') if s[k]]
    if m and py:
        lines.append('macroDirectives = {%s}' % ', '.join(
            "'%s': %s" % (a, REF % b) for a, b in m))
    elif m:
        lines.append('[macroDirectives]')
        lines += ['%s = python:%s' % (a, REF % b) for a, b in m]
    return '%scompiler-settings%s\n%s\n%send compiler-settings\n' % (
        t, ' python' if py else '', '\n'.join(lines), t)


def probe(t, n):
    out = 'v:$a,@a;f:$f,@f\nc: ##1 //2 yes3 1x4\nd:#silent 1#|^silent 1^.\n'
    out += 'p:<%write("1")%>,{%write("1")%}\nl:#* *#.(* *)\ns#\n~\nt\nn:$n,@n\n'
    for m in ('m1', 'm2', 'm3'):
        out += '#%s: x\n^%s: x\n' % (m, m)
    return out + '%sblock b%d\nB\n%send block\n' % (t, n, t)


def source(prog, t):
    out = ''
    n = 0
    for it in prog:
        if it['i'] == 'probe':
            out += probe(t, n)
            n += 1
            continue
        out += directives(it, t)
        if it['i'] == 'reset':
            t = '#'
        elif it['i'] == 'set' and it['k'] == 'dir':
            t = it['v']
        elif it['i'] == 'block' and it['s']['dir']:
            t = it['s']['dir']
    return out


def run(case):
    D = {'D1': {}, 'D2': {}}
    model = {k: dict(case['cfg'][k]) for k in D}
    for k in ('D2', 'D1'):
        fill(D[k], model[k], D['D2'])
    K = type('K', (Template,), {'_CHEETAH_compilerSettings': D['D2']})
    ns = {'n': None, 'a': 'A', 'f': fn}
    classes = []
    obs = []
    for o in case['ops']:
        out = ''
        src = None
        try:
            if o['op'] == 'compile':
                dd = o['set'] or ('D2' if o['api'] == 'K' else '')
                t = (model[dd]['dir'] if dd else '') or '#'
                src = source(o['prog'], t)
                kw = {'compilerSettings': D[o['set']]} if o['set'] else {}
                api = {'T': Template, 'K': K}[o['api']]
                if o['how'] == 'compile':
                    c = api.compile(src, **kw)
                    classes.append(lambda c=c: c(searchList=[ns],
                                                 filter=Angle))
                else:
                    i = api(src, searchList=[ns], filter=Angle, **kw)
                    classes.append(lambda i=i: i)
                out = str(classes[-1]())
            elif o['op'] == 'mutate':
                d = D[o['d']]
                model[o['d']][o['k']] = o['v']
                if o['k'] in ('m1', 'm2'):
                    m = d.setdefault('macroDirectives', {})
                    if o['v']:
                        m[o['k']] = FUN[o['v']]
                    else:
                        m.pop(o['k'], None)
                else:
                    for r in KEY[o['k']]:
                        if o['v']:
                            d[r] = val(o['k'], o['v'], D['D2'], r)
                        else:
                            d.pop(r, None)
            else:
                out = str(classes[o['n'] - 1]())
        except Exception as e:
            out = 'EXC %s %s' % (type(e).__name__, str(e)[:300])
        out = FN.sub('O', out)
        obs.append({'out': out,
                    'd': {k: abstract(D[k], D['D2']) for k in D}})
    return {'obs': obs}
