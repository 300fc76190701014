"""Compiles and renders documents with macro directives (spec/Macros.tla)."""
import sys
from Cheetah.Template import Template


def ser(items, macro=False):
    out = []
    for q in items:
        k = q['k']
        if k == 't':
            out.append(q['s'])
        elif k == 'v':
            out.append('${%s}' % q['n'])
        elif k == 'set':
            out.append("#set $%s = '%s'#" % (q['n'], q['s']))
        elif k == 'if':
            out.append('#if $%s#%s#end if#' % (q['n'], ser(q['b'], macro)))
        elif k == 'for':
            out.append('#for $%s in $L#%s#end for#'
                       % (q['n'], ser(q['b'], macro)))
        elif k == 'pre':
            out.append('#%s ' % q['n'])
        elif k == 'call':
            n, a, b = q['n'], q['as'], ser(q['b'], macro)
            out.append({'inline': '#%s%s#%s#end %s#' % (n, a, b, n),
                        'block': '#%s%s\n%s\n#end %s\n' % (n, a, b, n),
                        'short': '#%s%s: %s\n' % (n, a, b)}[q['f']])
        elif k == 'def':
            d = q['d']
            h = '#defmacro %s' % d['n']
            ps = d['ps'] or {}
            if ps or d.get('paren'):
                h += '(%s)' % ', '.join("%s='%s'" % x for x in ps.items())
            b = ser(d['b'], True)
            f = q['f']
            if f == 'block':        # its body ends in a line end
                out.append('%s\n%s#end defmacro\n' % (h, b))
            elif f == 'short':
                out.append('%s: %s\n' % (h, b))
            else:
                out.append('%s#%s#end defmacro#' % (h, b))
        elif k == 'src':
            out.append('@{src}')
        elif k == 'arg':
            out.append('@{%s}' % q['n'])
        elif k == 'when':
            out.append("%%if @%s == '%s'%%%s%%end if%%" % (
                q['n'], q['s'], ser(q['b'], True)))
        elif k == 'via':
            out.append('@{macros.%s(@src)}' % q['n'])
        else:
            raise ValueError(k)
    return ''.join(out)


def make(d, log, table):
    """a macro written in Python"""
    ps = dict(d['ps'] or {})

    def text(items, src, args, short, eol):
        out = []
        for q in items:
            k = q['k']
            if k == 'src':
                out.append(src)
            elif k == 'arg':
                out.append(args[q['n']])
            elif k == 'eol':
                out.append(eol if short else '')
            elif k == 'when':
                if args[q['n']] == q['s']:
                    out.append(text(q['b'], src, args, short, eol))
            elif k == 'via':
                out.append(table[q['n']](src))
            elif k in ('if', 'for', 'call'):
                b = text(q['b'], src, args, short, eol)
                out.append(ser([dict(q, b=[{'k': 't', 's': b}])]))
            else:
                out.append(ser([q]))
        return ''.join(out)

    def body(src, given, short=None, eol=None):
        log.append('%s(%s)%s' % (
            d['n'], ''.join('%s=%s;' % (x, given[x]) for x in 'pq'
                            if given.get(x) is not None), src))
        args = dict(ps)
        args.update({x: v for x, v in given.items() if v is not None})
        return text(d['b'], src, args, short, eol)

    if d['via'] == 'plain':
        return lambda src: body(src, {})
    if d['via'] == 'fn':
        def fn(src, p=None, q=None, isShortForm=None,
               EOLCharsInShortForm=None):
            return body(src, {'p': p, 'q': q}, isShortForm,
                        EOLCharsInShortForm)
        return fn

    class Obj(object):
        def __call__(self, src, p=None, q=None, isShortForm=None,
                     EOLCharsInShortForm=None):
            return body(src, {'p': p, 'q': q}, isShortForm,
                        EOLCharsInShortForm)

        def meth(self, src, p=None, q=None, parser=None, macros=None,
                 compilerSettings=None, isShortForm=None,
                 EOLCharsInShortForm=None, startPos=None, endPos=None):
            assert macros and parser is not None if parser else True
            return body(src, {'p': p, 'q': q}, isShortForm,
                        EOLCharsInShortForm)
    return Obj() if d['via'] == 'obj' else Obj().meth


def run(case):
    cfg = case['cfg']
    log = []
    table = {}
    for d in cfg['macros']:
        table[d['n']] = make(d, log, table)
    given = dict(table)
    settings = {'macroDirectives': given} if given else {}
    env = dict(cfg['env'], L=cfg['L'], T=True, F=False)
    obs = []
    for o in case['ops']:
        del log[:]
        src = ser(o['doc'])
        if o.get('wrap') == 'def':
            src = '#def m_()#' + src + '#end def#${m_()}'
        elif o.get('wrap') == 'block':
            src = '#block m_#' + src + '#end block#'
        try:
            cls = Template.compile(src, compilerSettings=settings,
                                   useCache=False,
                                   cacheCompilationResults=False)
            got = list(log)
            out = cls(searchList=[env]).respond()
            if list(log) != got:
                out += '?called when rendered'
        except Exception as e:
            got, out = [], 'exc:%s:%s' % (type(e).__name__, e)
        same = len(given) if (set(given) == set(table) and all(
            given[x] is table[x] for x in table)) else -1
        obs.append({'out': out, 'log': got, 'given': same})
    return {'obs': obs}
