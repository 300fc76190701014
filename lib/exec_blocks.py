"""Compile templates built from tags (spec/Blocks.tla) with the real compiler."""
import io
import re
import sys
from Cheetah.Template import Template
from Cheetah.Parser import ParseError, ForbiddenDirective

HEAD = {'if': 'if 1', 'unless': 'unless 0', 'for': 'for $i in [1]',
        'while': 'while 0', 'repeat': 'repeat 2', 'try': 'try',
        'call': 'call f', 'cache': 'cache', 'filter': 'filter None'}
CLAUSE = {'else': 'else', 'elif': 'elif 1', 'except': 'except ValueError',
          'bexcept': 'except', 'finally': 'finally'}
STMT = {'set': 'set $q = 1', 'echo': 'echo 1', 'pass': 'pass',
        'silent': 'silent 1', 'return': 'return', 'stop': 'stop',
        'assert': 'assert 1', 'errorCatcher': 'errorCatcher Echo',
        'transform': 'transform None', 'del': 'del q', 'import': 'import os',
        'attr': 'attr $zz = 1', 'slurp': 'slurp', 'shBang': 'shBang #!x', 'super': 'super'}
DEFAULTS = {'d': '#', 'c': '##', 'e': '#'}


def head(k, i):
    if k in ('def', 'block', 'closure'):
        return '%s x%d' % (k, i)
    if k == 'capture':
        return 'capture c%d' % i
    return HEAD[k]


def render(cfg, tags):
    tok = dict(DEFAULTS)
    tok.update(cfg.get('tok') or {})
    d, c, e = tok['d'], tok['c'], tok['e']
    eol = cfg.get('eol') or '\n'
    inline = cfg['layout'] == 'inline'
    out = []
    for i, t in enumerate(tags, 1):
        k = t['k']
        ind = t.get('ind', '')
        kind = t['t']
        if kind == 'text':
            out.append(t.get('s', 'text %d' % i) + ('' if inline else eol))
            continue
        if kind == 'cmt':
            out.append(ind + ('' if inline else c + ' comment' + eol))
            continue
        if kind in ('open', 'short'):
            s = head(k, i)
        elif kind in ('clause', 'sclause'):
            s = CLAUSE[k]
        elif kind in ('stmt',):
            s = STMT[k]
        elif kind == 'brk':
            s = k
        elif kind == 'end':
            s = ('end ' + k).strip()
        elif kind == 'arg':
            s = 'arg a%d' % i
        elif kind == 'raw':
            s = 'raw'
        elif kind == 'shopen':
            s = 'if 1: %s%s%s a' % (d, head(k, i), e)
        elif kind == 'shend':
            s = 'if 1: a %send %s' % (d, k)
        if kind in ('short', 'sclause'):
            s += ': x'
        s = ind + d + t.get('sp', '') + s
        if inline:
            s += e
        else:
            s += t.get('trail', '') + eol
        out.append(s)
    src = ''.join(out)
    if cfg.get('noeol') and not inline and src.endswith(eol):
        src = src[:-len(eol)]
    return src


def settings(cfg):
    st = {}
    if cfg.get('dis'):
        st['disabledDirectives'] = list(cfg['dis'])
    if cfg.get('en'):
        st['enabledDirectives'] = list(cfg['en'])
    tok = cfg.get('tok') or {}
    if 'd' in tok:
        st['directiveStartToken'] = tok['d']
    if 'e' in tok:
        st['directiveEndToken'] = tok['e']
    if 'c' in tok:
        st['commentStartToken'] = tok['c']
    return st


def attempt(src, st):
    err, sys.stderr = sys.stderr, io.StringIO()
    try:
        try:
            Template.compile(src, compilerSettings=st,
                             cacheCompilationResults=False,
                             keepRefToGeneratedCode=False)
            return 'ok'
        except ParseError as x:
            kind = 'forbid' if isinstance(x, ForbiddenDirective) else 'err'
            try:
                m = re.search(r'^Line (\d+), column (\d+)', str(x), re.M)
            except Exception as y:
                return 'unreportable:' + type(y).__name__
            if not m:
                return 'noline'
            return '%s:%s' % (kind, m.group(1))
        except RecursionError:
            return 'recursion'
        except Exception as x:
            # an error of the module's own top level (an import, a decorator)
            # is not the compiler's
            if hasattr(x, 'generatedModuleCode') \
                    and not isinstance(x, SyntaxError):
                return 'ok'
            return 'other:%s:%s' % (type(x).__name__, str(x)[:80])
    finally:
        sys.stderr = err


def run(case):
    if 'src' in case:
        return {'obs': [attempt(case['src'], case.get('settings') or {})]}
    if 'ops' in case:
        return {'obs': [attempt(render(case['cfg'], op['tags']),
                                settings(case['cfg']))
                        for op in case['ops']]}
    return {'obs': attempt(render(case['cfg'], case['tags']),
                           settings(case['cfg']))}
