import os
import re
import sys
import shutil
import tempfile
import itertools
from Cheetah.Template import Template

SRC = ('%(enc)sT:%(c)s\nX:@x\n%%%%p\n!!e\n#try\n#set $gg = $repr($g)\n'
       '#except\n#set $gg = "-"\n#end try\nG:$gg\n'
       "B:$getattr($self, 'b', '-')\n")


class b1(object):
    b = 'b1'


class b2(object):
    b = 'b2'


class M(Template):
    _CHEETAH_compilerSettings = {'commentStartToken': '!!'}
    _CHEETAH_defaultMainMethodNameForTemplates = 'mm'


class N(Template):
    _CHEETAH_cacheCompilationResults = False


class P(Template):
    _CHEETAH_preprocessors = [{'tokens': '@ ~', 'searchList': [{'x': '1'}]}]


APIS = {'P': P, 'T': Template, 'M': M, 'N': N}
b3 = Template.compile("#attr b = 'b3'\n", className='b3', moduleName='b3mod')
BASES = {'b1': b1, 'b2': b2, 'b3': b3}
uniq = itertools.count(1)


def src(c, u):
    # u makes the texts of different cases different; the encoding line is
    # there when the text needs one
    enc = '#encoding utf-8\n' if not c.isascii() else ''
    return SRC % {'enc': enc, 'c': c} + '#silent "%s"\n' % u


def settings(s):
    return {'pc': {'commentStartToken': '%%'},
            'pc2': {'commentStartToken': '%%', 'indentationStep': '  '},
            'ex': {'commentStartToken': '!!'},
            'none': {}}[s]


def fun(source, file):
    if source is None:
        with open(file, encoding='utf8') as f:
            source = f.read()
    return source.replace('@x', 'fun'), None


def pre(p):
    if p == 'f':
        return [fun]
    if p == 'l':
        return [{'tokens': '@ ~', 'searchList': [{'x': '^y'}]},
                {'tokens': '^ ~', 'searchList': [{'y': 'twice'}]}]
    return [{'tokens': '@ ~', 'searchList': [{'x': p[1:]}]}]


TYPES = {}


def norm(s):
    return ' '.join(s.split())


def run(case):
    u = 'u%d' % next(uniq)
    root = tempfile.mkdtemp(prefix='cc-')
    old = os.getcwd()
    try:
        for d in ('d1', 'd2'):
            os.mkdir(os.path.join(root, d))
            for f in ('f1', 'f2'):
                write(os.path.join(root, d, f), src(d + f, u), 1000)
        os.chdir(os.path.join(root, 'd1'))
        seen = []
        obs = []
        for o in case['ops']:
            try:
                before = dict(sys.modules)
                obs.append(step(o, root, seen, u))
                # a module there already is not replaced
                for k, m in before.items():
                    if sys.modules.get(k) is not m:
                        obs[-1] += ' module %s replaced' % k
            except Exception as e:
                obs.append('exc:%s %s' % (type(e).__name__, str(e)[:80]))
        return {'obs': obs}
    finally:
        os.chdir(old)
        shutil.rmtree(root, True)


def write(p, text, t):
    with open(p, 'w', encoding='utf8') as f:
        f.write(text)
    os.utime(p, (t, t))


def step(o, root, seen, u):
    if o['op'] == 'cd':
        os.chdir(os.path.join(root, o['dir']))
        return 'ok'
    if o['op'] == 'write':
        write(os.path.join(root, o['dir'], o['file']),
              src(o['src'], u), o['t'])
        return 'ok'
    api = APIS[o['api']]
    kw = {}
    if o['file']:
        f = o['file']
        kw['file'] = os.path.join(root, o['dir'], f) if o['dir'] else f
    else:
        kw['source'] = src(o['src'], u)
    for k, a in (('cls', 'className'), ('mod', 'moduleName'),
                 ('main', 'mainMethodName')):
        if o[k] and not (o[k] == 'respond' and a == 'mainMethodName'):
            kw[a] = o[k]
    if o['settings']:
        kw['compilerSettings'] = settings(o['settings'])
    if o['base']:
        kw['baseclass'] = BASES[o['base']]
    if o['glob']:
        kw['moduleGlobals'] = {'g': eval(o['glob'])}
    if o['pre'] != 'none':
        kw['preprocessors'] = pre(o['pre'])
    if o['keep']:
        kw['cacheCompilationResults'] = o['keep'] == 'y'
    if o['use']:
        kw['useCache'] = o['use'] == 'y'
    snap = repr(sorted((k, v) for k, v in kw.items()
                       if k in ('compilerSettings', 'moduleGlobals')))
    if o['op'] == 'source':
        code = api.compile(returnAClass=False, **kw)
        if not isinstance(code, bytes):
            return 'src not bytes'
        ns = {'__name__': 'standalone'}
        if o['base']:
            ns['CHEETAH_dynamicallyAssignedBaseClass_'
               + BASES[o['base']].__name__] = BASES[o['base']]
        if o['glob']:
            ns['g'] = eval(o['glob'])
        exec(compile(code, '<src>', 'exec'), ns)
        ks = [v for v in ns.values() if isinstance(v, type)
              and v.__module__ == 'standalone']
        K = ks[-1]
        tail = ''
        head = 'src '
    else:
        if o['op'] == 'inst':
            # the constructor goes through the same door
            kw2 = {k: v for k, v in kw.items()
                   if k in ('source', 'file', 'compilerSettings')}
            # (a subclass of Template is kept beside the compiled class)
            T = type(api(**kw2))
            K = next(c for c in T.__mro__ if '_CHEETAH_src' in vars(c))
            if TYPES.setdefault((K, api), T) is not T:
                return 'another class for the same'
        elif o['op'] == 'subclass':
            kw.pop('baseclass')
            K = BASES[o['base']].subclass(**kw)
        else:
            K = api.compile(**kw)
        if not any(K is k for k in seen):
            seen.append(K)
        n = [i for i, k in enumerate(seen, 1) if K is k][0]
        head = 'k%d ' % n
        m = re.sub(r'_\d+_\d+_\d+$', '', K.__module__)
        tail = ' m:' + re.sub('^cheetah_', '', m)
    if snap != repr(sorted((k, v) for k, v in kw.items()
                           if k in ('compilerSettings', 'moduleGlobals'))):
        head = 'arguments changed ' + head
    # a foreign base gets a respond method of its own
    mains = ([m for m in ('mm', 'nn') if m in vars(K)]
             or [m for m in ('respond',) if m in vars(K)])
    out = getattr(K(), mains[0])() if mains else '?'
    res = (head + norm(out) + ' ' + K.__name__ + '.' + '+'.join(mains)
           + tail)
    # the default name for a file is made of its path
    pfx = re.sub(r'[^A-Za-z0-9]', '_', root).lstrip('_')
    return re.sub('_*' + pfx + '_d[12]_', '', res)
