"""Compiles templates whose settings disable directives or pass expressions
through hooks; reports what the hooks were shown, and what was run."""
import builtins
import re

from Cheetah.Template import Template
from Cheetah.Parser import ForbiddenDirective, ForbiddenExpression
from Cheetah.Filters import Filter

USED = []
NUM = re.compile(r'''(\bval(?:['\"][^()]*\))?)\((\d+)\)''')


def val(n):
    USED.append(n)
    return n


def deco(a):
    return lambda f: f


def flt(n):
    return Filter


def ident(x=None, k=None, a=None):
    return x


builtins.val = val
builtins.verif_deco = deco
builtins.verif_flt = flt
builtins.verif_ident = ident


class Base(Template):
    pass


def _meth(self, a=None):
    return ''


for _i in range(400):
    setattr(Base, 'sup%d' % _i, _meth)

LEAF = {
    'text': 'text', 'comment': '## #silent $val(%d)', 'raw': None,
    'mlcomment': '#* #silent $val(%d) <%% val(3) %%>*#',
    'escaped': r'\#silent \$val(%d)',
    'ph': '$val(%d)', 'phl': '${val(%d)}', 'phx': '$(1 and $val(%d))',
    'phs': '$!val(%d)', 'phc': '$*val(%d)',
    'psp': '<%%= val(%d) %%>', 'psp2': '<%% val(%d) %%>',
    'silent': '#silent $val(%d)#', 'echo': '#echo $val(%d)#',
    'assert': '#assert $val(%d)#', 'slurp': '#slurp',
    'set': '#set $x%d = $val(%d)#', 'setglobal': '#set global $y%d = $val(%d)#',
    'attr': "#attr $z%d = 'val(%d)'#", 'pass': '#pass#',
    'import': '#import os#', 'from': '#from os import path#'}
BLOCK = {
    'if': '#if $val({n})\nx\n{b}#end if\n',
    'ifelse': '#if $val({n})\nx\n{b}#elif $val({m})\nx\n#else\nx\n#end if\n',
    'elseif': '#if not $val({n})\nx\n#else if $val({m})\nx\n{b}#end if\n',
    'unless': '#unless not $val({n})\nx\n{b}#end unless\n',
    'for': '#for $i{n} in [$val({n})]\nx\n{b}#end for\n',
    'repeat': '#repeat min(1, $val({n}))\nx\n{b}#end repeat\n',
    'while': '#while $val({n})\nx\n{b}#break\n#end while\n',
    'continue': '#for $i{n} in [$val({n})]\nx\n{b}#continue\n'
                '#silent $val({m})\n#end for\n',
    'try': '#try\nx\n{b}#raise ValueError($val({n}))\n#except\nx\n#end try\n',
    'finally': '#try\nx\n{b}#finally\n#silent $val({n})\n#end try\n',
    'capture': "#capture c{n}\nx\n{b}#end capture\n",
    'filter': '#filter $verif_flt($val({n}))\nx\n{b}#end filter\n',
    'cache': "#cache test=len('val({n})')<3\nx\n{b}#end cache\n",
    'call': '#call $verif_ident k=$val({n})\nx\n{b}#arg a\nx\n#end call\n',
    'def': "#def d{n}($a='val({n})')\nx\n{b}#end def\n$d{n}()\n",
    'block': "#block b{n}($a='val({n})')\nx\n{b}#end block\n",
    'closure': "#closure e{n}($a='val({n})')\nx\n{b}#end closure\n$e{n}()\n",
    'return': "#def d{n}($a='val({n})')\nx\n{b}#return $val({m})\n#end def\n"
              "$d{n}()\n",
    'deco': "#@verif_deco('val({n})')\n#def d{n}($a='val({m})')\nx\n{b}"
            "#end def\n$d{n}()\n",
    'super': "#def sup{n}\nx\n#super(a=val({n}))\nx\n{b}#end def\n$sup{n}()\n",
    'raw': '#raw\n#silent $val({n})\n<% val({n}) %>\n#end raw\n',
    'include': "#include source='val({n})'\n",
    'del': '#set $w{n} = $val({n})\n#del $w{n}\n',
    'ternary': '#if $val({n}) then 1 else $val({m})\n',
    'pharg': '${{val({n}), k=$val({m})}}\n',
    'errorCatcher': '#errorCatcher Echo\n#end errorCatcher\n',
    'compiler': "#compiler useFilters = 'val({n})'\n",
    'compiler-settings': '#compiler-settings\nfoo = val({n})\n'
                         '#end compiler-settings\n',
    'breakstop': '#if not $val({n})\n#stop\n#end if\n',
}
LINE = {
    'if1': '#if $val({n}): {b}\n', 'unless1': '#unless not $val({n}): {b}\n',
    'for1': '#for $i{n} in [$val({n})]: {b}\n',
    'repeat1': '#repeat min(1, $val({n})): {b}\n',
    'capture1': "#capture c{n}: {b}\n",
    'filter1': '#filter $verif_flt($val({n})): {b}\n',
    'cache1': "#cache test=len('val({n})')<3: {b}\n",
    'call1': '#call $verif_ident k=$val({n}): {b}\n',
    'def1': "#def d{n}($a='val({n})'): {b}\n$d{n}()\n",
    'block1': "#block b{n}($a='val({n})'): {b}\n",
    'macro': '#defmacro m{n}\n(@src)\n#end defmacro\n#m{n}: {b}\n',
}


def text(items, line=False):
    out = ''
    for it in items:
        n, k = it['n'], it['k']
        if k in BLOCK:
            out += BLOCK[k].format(n=n, m=n + 1, b=text(it['b']))
        elif k in LINE:
            out += LINE[k].format(n=n, m=n + 1, b=text(it['b'], True))
        else:
            f = LEAF[k]
            out += f % ((n,) * len(re.findall('%d', f))) if '%' in f else f
            out += '' if line else '\n'
    return out


def run(case):
    c = case['cfg']
    obs = []
    for o in case['ops']:
        log = []

        def dirhook(h, i):
            def hook(parser, directiveName):
                log.append({'h': h, 'i': i, 'n': directiveName})
            return hook

        def phhook(h, i):
            def hook(parser):
                log.append({'h': h, 'i': i, 'n': ''})
            return hook

        def nums(x):
            return [int(m[1]) for m in NUM.findall(
                x if isinstance(x, str) else repr(x))]

        def exhook(h, i):
            def hook(parser, expr, exprType, rawExpr=None, startPos=None):
                s, raw = nums(expr), nums(rawExpr or '')
                t = 'def' if exprType in ('block', 'closure') else exprType
                log.append({'h': 'expr', 'i': i, 'n': t, 's': s, 'raw': raw})
                if h['k'] == 'ban':
                    if t == h['t'] or h['n'] in s + raw:
                        raise ForbiddenExpression(parser, msg='no')
                    return expr
                if h['k'] == 'id':
                    return expr
                f = (lambda m: '%s(%d)' % (m.group(1), int(m.group(2)) + 1)) \
                    if h['k'] == 'inc' \
                    else (lambda m: '%s(%d)' % (m.group(1), int(m.group(2)) * 2))
                if isinstance(expr, str):
                    return NUM.sub(f, expr)
                # the arguments of #cache
                return [(a, v and NUM.sub(f, v)) for a, v in expr]
            return hook

        def each(n, f, h):
            return [f(h, i + 1) for i in range(n)]
        case_ = str.upper if c['up'] else str
        s = {}
        if c['dis']:
            s['disabledDirectives'] = [case_(x) for x in c['dis']]
        if c['en']:
            s['enabledDirectives'] = [case_(x) for x in c['en']]
        if c['hd']:
            s['disabledDirectiveHooks'] = each(c['hd'], dirhook, 'disabled')
            s['preparseDirectiveHooks'] = each(c['hd'], dirhook, 'pre')
            s['postparseDirectiveHooks'] = each(c['hd'], dirhook, 'post')
        if c['hp']:
            s['preparsePlaceholderHooks'] = each(c['hp'], phhook, 'phpre')
            s['postparsePlaceholderHooks'] = each(c['hp'], phhook, 'phpost')
        if c['hooks']:
            s['expressionFilterHooks'] = [exhook(h, i + 1) for i, h
                                          in enumerate(c['hooks'])]
        src = text(o['prog'])
        del USED[:]
        try:
            cls = Template.compile(src, compilerSettings=s, baseclass=Base)
        except ForbiddenDirective:
            res = 'forbidden'
        except ForbiddenExpression:
            res = 'refused'
        except Exception as e:
            res = 'EXC %s %s' % (type(e).__name__, str(e)[:200])
        else:
            if USED:
                res = 'used %r when compiled' % USED
            else:
                try:
                    str(cls())
                    res = 'ok'
                except Exception as e:
                    res = 'RUN %s %s' % (type(e).__name__, str(e)[:200])
        obs.append({'res': res, 'log': log, 'used': list(USED)})
    return {'obs': obs}
