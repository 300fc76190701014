"""Render templates given as symbols (spec/Lexer.tla) with the real code."""
from Cheetah.Template import Template

VALUE = '|$v #slurp\n ## \\$a ${v}%s'


class Names(dict):
    """Every name has a value naming it."""
    def __missing__(self, k):
        return '<' + k + '>' + VALUE

    def __contains__(self, k):
        return True

    def has_key(self, k):
        return True


def concrete(cfg, syms):
    m = cfg.get('map') or {}
    return ''.join(m.get(x, x) for x in syms)


def run(case):
    cfg = case['cfg']
    src = concrete(cfg, case['src'])
    st = cfg.get('settings')
    k = {}
    if st:
        k['compilerSettings'] = st
    try:
        c = Template.compile(src, cacheCompilationResults=False, **k)
        got = str(c(searchList=[Names()]))
    except Exception as e:
        return {'src': src, 'exc': '%s: %s' % (type(e).__name__, str(e)[:200])}
    m = dict(cfg.get('map') or {})
    m['VALUE'] = VALUE
    want = ''.join(m.get(x, x) for x in case['out'])
    if got == want:
        return {'ok': 1}
    return {'src': src, 'got': got, 'want': want}
