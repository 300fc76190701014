"""Runs worlds of the abstract machine (spec/CheetahVM.tla) in the real code:
compiles the classes, creates the objects, performs the operations."""
import os
import shutil
import signal
import sys
import types
import tempfile
from Cheetah.Template import Template
from Cheetah import Filters, ErrorCatchers
from Cheetah.DummyTransaction import DummyTransaction
from Cheetah.NameMapper import NotFound  # noqa: F401
import vmlang


class Boom(Exception):
    pass


class SubBoom(Boom):
    pass


class Brackets(Filters.Filter):
    def filter(self, val, **kw):
        return '[' + super(Brackets, self).filter(val, **kw) + ']'


class Angle(Filters.Filter):
    def filter(self, val, **kw):
        return '<' + super(Angle, self).filter(val, **kw) + '>'


EXC = {'Boom': Boom, 'SubBoom': SubBoom}


def rep(v):
    """repr as in Values.tla (no escaping)"""
    if isinstance(v, str):
        return "'" + v + "'"
    if isinstance(v, list):
        return '[' + ', '.join(rep(x) for x in v) + ']'
    return repr(v)


class World:
    def __init__(self, w, seed=0):
        self.w = w
        self.log = []
        self.seed = seed
        self.fns = self.functions()
        self.ns = [dict((k, self.val(v)) for k, v in n.items())
                   for n in w['ns']]
        self.classes = []
        self.src = []
        self.mods = []
        self.mtime = 10**9
        for f, text in w.get('fs', {}).items():
            self.write(f, text)
        for c in w['cls']:
            self.compile(c)
        self.objs = []
        for o in w['objs']:
            kw = {}
            if o['filt'] and o['filt'] != 'Filter':
                f = o['filt']
                kw['filter'] = {'Brackets': Brackets, 'Angle': Angle}.get(f,
                                                                          f)
            sl = [self.ns[j - 1] for j in o['sl']]
            if o.get('ec'):
                kw['errorCatcher'] = o['ec'] if len(self.objs) % 2 else \
                    getattr(ErrorCatchers, o['ec'])
            self.objs.append(self.classes[o['cls'] - 1](searchList=sl, **kw))

    def write(self, f, text):
        with open(f, 'w', encoding='utf8', newline='') as fo:
            fo.write(text)
        self.mtime += 10
        os.utime(f, (self.mtime, self.mtime))

    def functions(self):
        log = self.log

        def boom(*a):
            raise Boom('x')

        def subboom(*a):
            raise SubBoom('x')

        def tr(tag, v):
            log.append(tag)
            return v

        def ident(v):
            return v

        def up(v):
            return '(' + (v if isinstance(v, str) else rep(v)) + ')'

        def nothing(*a):
            return None

        def zero(*a):
            return 0

        def cat(a, b):
            return (a if isinstance(a, str) else rep(a)) + '/' + \
                (b if isinstance(b, str) else rep(b))

        def kwshow(**kw):
            return '{' + ''.join('%s=%s,' % (k, kw[k] if isinstance(
                kw[k], str) else rep(kw[k])) for k in sorted(kw)) + '}'
        return dict(boom=boom, subboom=subboom, tr=tr, ident=ident, up=up,
                    nothing=nothing, zero=zero, cat=cat, kwshow=kwshow)

    def val(self, v):
        t = v['t']
        if t == 'f':
            return self.fns[v['v']]
        if t == 'l':
            return [self.val(x) for x in v['v']]
        if t == 'x':
            return EXC[v['v']]
        if t == 'k':
            return {'Brackets': Brackets, 'Angle': Angle}[v['v']]
        return v['v'] if t != 'n' else None

    def compile(self, c):
        if c.get('incl'):       # compiled by the include directive
            self.classes.append(None)
            return
        if c.get('py'):
            self.pyclass(c)
            return
        u = vmlang.Unparser(self.seed)
        src = c.get('src')
        if src is None:
            src = u.cls(c, c.get('main', 'respond'))
            if src.endswith('#slurp\n') and self.seed % 2:
                src = src[:-len('#slurp\n')]
        self.src.append(src)
        kw = dict(useCache=False)
        if c['base'] and 'how' not in c:
            kw['baseclass'] = self.classes[c['base'] - 1]
            kw['mainMethodName'] = c.get('main', 'respond')
        kw.update(c.get('kw', {}))
        how = c.get('how', '')
        if how in ('base', 'sub'):
            b = self.classes[(c.get('bases') or [c['base']])[0] - 1]
            if how == 'base':
                kw['baseclass'] = b
                k = Template.compile(src, **kw)
            else:
                k = b.subclass(src, **kw)
        else:                           # '#extends' is part of the source
            k = Template.compile(src, **kw)
        self.classes.append(k)
        self.publish(c, k)

    def publish(self, c, k):
        """makes the class importable, as `from name import name` and
        `from pkg.name import name`"""
        name = c.get('name')
        if not name:
            return
        pkg = sys.modules.setdefault('vfpkg', types.ModuleType('vfpkg'))
        pkg.__path__ = []
        for n in (name, 'vfpkg.' + name):
            m = types.ModuleType(n)
            setattr(m, name, k)
            sys.modules[n] = m
        setattr(pkg, name, sys.modules['vfpkg.' + name])

    def pyclass(self, c):
        d = {'__init__': lambda self, *args, **kw: None}
        for n, M in c['meths'].items():
            v = self.val(M['body'][0]['e']['v'])
            d[n] = lambda self, v=v: v
        for a, v in c['attrs'].items():
            d[a] = self.val(v)
        k = type(c.get('name') or 'Py', (object,), d)
        self.src.append('python class %r' % sorted(d))
        self.classes.append(k)
        self.publish(c, k)

    def op(self, o):
        if o['op'] == 'render':
            del self.log[:]
            t = self.objs[o['o'] - 1]
            before = [(list(n.items()), rep(list(n.values())))
                      for n in self.ns]
            tr = DummyTransaction() if o['trans'] else None
            try:
                if o['m'] == '':
                    v = str(t)
                else:
                    f = getattr(t, o['m'])
                    v = f(trans=tr) if tr is not None else f()
                r = 'ret:' + rep(v)
            except Exception as e:
                r = 'exc:' + type(e).__name__
            if tr is not None:
                r += '|trans:' + tr.response().getvalue()
            if [(list(n.items()), rep(list(n.values()))) for n in self.ns] \
                    != before:
                r += '|caller-namespace-changed'
            if self.log:
                r += '|log:' + ''.join(x + ';' for x in self.log)
            return r
        if o['op'] == 'write':
            self.write(o['f'], o['v'])
            return 'ok'
        if o['op'] == 'hasvar':
            t = self.objs[o['o'] - 1]
            return 'T' if t.hasVar(o['x']) else 'F'
        if o['op'] == 'getvar':
            t = self.objs[o['o'] - 1]
            return 'ret:' + rep(t.getVar(o['x'], self.val(o['d'])))
        if o['op'] == 'errors':
            c = self.objs[o['o'] - 1].errorCatcher()
            return 'errs:' + (''.join(e['rawCode'] + ';'
                                      for e in c.listErrors())
                              if hasattr(c, 'listErrors') else '-')
        if o['op'] == 'ns':
            self.ns[o['n'] - 1][o['x']] = self.val(o['v'])
            return 'ok'
        raise ValueError(o)


class TooLong(BaseException):
    pass


LONG = [False]


def alarm(sig, frame):
    """Some programs double their values again and again: those are given up
    (a program that hangs without such values is not)."""
    def big(v):
        return isinstance(v, str) and len(v) > 20000

    def any_big(d):
        return any(big(v) for v in list(d.values()))
    f = frame
    while f is not None and not LONG[0]:
        loc = f.f_locals
        g = getattr(loc.get('self'), '_CHEETAH__globalSetVars', None)
        if any_big(loc) or g and any_big(g):
            LONG[0] = True
        f = f.f_back
    if LONG[0]:
        raise TooLong


def run(case):
    LONG[0] = False
    signal.signal(signal.SIGVTALRM, alarm)
    try:
        signal.setitimer(signal.ITIMER_VIRTUAL, 1.5, .1)
        r = run0(case)
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except TooLong:
        r = {}
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return {'long': True} if LONG[0] else r


def run0(case):
    d = None
    if case['w'].get('fs') is not None:
        d = tempfile.mkdtemp(dir='.')
        os.chdir(d)
    try:
        return run1(case)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if d is not None:
            os.chdir('..')
            shutil.rmtree(d, True)


def run1(case):
    w = World.__new__(World)
    try:
        w.__init__(case['w'], case.get('seed', 0))
    except Exception as e:
        return {'obs': ['compile:%s' % type(e).__name__],
                'msg': str(e)[:600], 'src': getattr(w, 'src', None)}
    return {'obs': [w.op(o) for o in case['ops']], 'src': w.src}
