"""Histories of imports over a scratch tree, with the import hook installed
and not.  Each case runs in a process of its own, of an unprivileged user."""
import builtins
import importlib
import io
import json
import os
import re
import shutil
import signal
import sys
import tempfile
import time

import Cheetah.ImportHooks as IH
import Cheetah.LoadTemplate as LT
from Cheetah.Template import Template
import Cheetah.NameMapper, Cheetah.Version                    # noqa
import Cheetah.Filters, Cheetah.CacheRegion                   # noqa
import Cheetah.ErrorCatchers                                  # noqa
import encodings.latin_1, encodings.utf_8, traceback          # noqa
import linecache, tokenize, marshal, py_compile               # noqa

NOBODY = 65534
NAMES = ['a', 'b', 'p', 'p.a', 'p.b', 'p.q', 'p.q.a', 'p.q.b']
REL = ['a', 'b', 'p', 'p/__init__', 'p/a', 'p/b', 'p/q', 'p/q/__init__',
       'p/q/a', 'p/q/b']
LOCS = [d + '/' + x for d in '12' for x in REL]
PYTHON = '''# -*- coding: latin-1 -*-
V = '<%s>'
U = '\xe9'
assert U == chr(233)
%s%s'''
TAG = re.compile(rb'<([YT]\d+)>')
warm = str(Template('#*w*#$x#slurp\n', searchList=[{'x': 1}]))


def stmt(i, n, tmpl):
    mod = '.'.join(i['mod'])
    if i['name']:
        s = 'from %s%s import %s as M%d' % ('.' * i['lv'], mod, i['name'], n)
    else:
        s = 'import %s as M%d' % (mod, n)
    return ('#' if tmpl else '') + s + '\n'


def source(c, tmpl):
    imps = ''.join(stmt(i, n, tmpl) for n, i in enumerate(c['imps']))
    f = c['f']
    if tmpl:
        s = imps + '<%s>\xe9\n' % c['t'] + {
            'ok': '', 'syn': '$[\n', 'psyn': '$x(1 2)\n',
            'exc': '#attr $y = 1/0\n'}[f]
    else:
        s = PYTHON % (c['t'], imps, {
            'ok': '', 'syn': '1 +\n', 'exc': '1/0\n'}[f])
    return s.encode('utf-8' if tmpl else 'latin-1')


def tagof(path):
    try:
        with open(path, 'rb') as f:
            m = TAG.search(f.read())
    except OSError:
        return ''
    return m.group(1).decode() if m else '?'


def desc1(m):
    if m is None:
        return 'None'
    v = getattr(m, 'V', None)
    if v is None:
        cls = getattr(m, m.__name__.split('.')[-1], None)
        if cls is None:
            return '?'
        v = str(cls())
        v = v[:-3] if v.endswith('>\xe9\n') else repr(v)
        return v[1:]
    return v[1:-1]


def desc(m):
    if m is None:
        return 'None'
    imps = []
    while hasattr(m, 'M%d' % len(imps)):
        imps.append(desc1(getattr(m, 'M%d' % len(imps))))
    return '%s[%s]' % (desc1(m), ','.join(imps))


class Runner:
    def __init__(self, root, cfg):
        self.root = root
        self.cfg = cfg
        self.n = 0
        self.orig = builtins.__import__
        self.had = hasattr(builtins, 'reload')
        for d in ('1', '1/p', '1/p/q', '2', '2/p', '2/p/q', 'cache'):
            os.mkdir(os.path.join(root, d))
        for e in cfg['init']:
            self.write(e, 'new')
        if cfg['cache']:
            IH.setCacheDir(os.path.join(root, 'cache'))
        sys.path[:0] = [os.path.join(root, '1'), os.path.join(root, '2')]
        self.path = list(sys.path)

    def mode(self, m):
        if self.cfg['ro']:
            for d in ('1', '1/p', '1/p/q', '2', '2/p', '2/p/q'):
                os.chmod(os.path.join(self.root, d), m)

    def file(self, e):
        p = os.path.join(self.root, *e['loc'])
        if e['k'] == 'pyc':
            return importlib.util.cache_from_source(p + '.py')
        return p + '.' + e['k']

    def write(self, e, mt):
        self.n += 1
        p = self.file(e)
        self.mode(0o755)
        with open(p, 'wb') as f:
            f.write(source(e['c'], e['k'] != 'py'))
        t = (10 ** 9 if mt == 'old' else int(time.time()) + 10 ** 6) + self.n
        os.utime(p, (t, t))
        self.mode(0o555)

    def state(self, r):
        files = []
        for x in LOCS:
            p = os.path.join(self.root, x)
            y = tagof(p + '.py')
            c = tagof(importlib.util.cache_from_source(p + '.py'))
            if y or c:
                files.append('%s=%s,%s' % (x.replace('/', '.'), y, c))
        hooked = builtins.__import__ is not self.orig
        o = {'r': r, 'files': files, 'hooked': hooked,
             'mods': ['%s=%s' % (n, desc(sys.modules[n])) for n in NAMES
                      if n in sys.modules]}
        bad = []
        if sys.path != self.path:
            bad.append('sys.path changed')
        if not hooked and hasattr(builtins, 'reload') != self.had:
            bad.append('builtins.reload')
        extra = set(os.listdir(self.root)) - {'1', '2', 'cache'}
        if extra:
            bad.append('files %s' % sorted(extra))
        if bad:
            o['bad'] = bad
        return o

    def imp(self, src):
        ns = {'__name__': '__user__', '__package__': ''}
        exec(src, ns)
        return ns

    def step(self, o):
        op = o['op']
        importlib.invalidate_caches()
        if op == 'install':
            IH.install(tuple('.' + x for x in o['exts']))
        elif op == 'uninstall':
            IH.uninstall()
        elif op == 'write':
            self.write(o, o['mt'])
        elif op == 'remove':
            self.mode(0o755)
            if os.path.exists(self.file(o)):
                os.remove(self.file(o))
            self.mode(0o555)
        elif op == 'forget':
            n = '.'.join(o['name'])
            for x in NAMES:
                if (x == n or x.startswith(n + '.')) and x in sys.modules:
                    del sys.modules[x]
            if '.' in n:
                par, last = n.rsplit('.', 1)
                par = sys.modules.get(par)
                if par is not None and hasattr(par, last):
                    delattr(par, last)
        else:
            try:
                if op == 'import':
                    n = '.'.join(o['name'])
                    top = self.imp('import ' + n)[o['name'][0]]
                    m = sys.modules[n]
                    if top is not sys.modules[o['name'][0]]:
                        return 'wrong module bound'
                elif op == 'call':
                    n = '.'.join(o['name'])
                    top = __import__(n, {}, {}, [])
                    m = sys.modules[n]
                    if top is not sys.modules[o['name'][0]]:
                        return 'wrong module returned'
                elif op == 'from':
                    n = '.'.join(o['name'])
                    m = self.imp('from %s import %s as X'
                                 % (n, o['n']))['X']
                    if m is not sys.modules[n + '.' + o['n']]:
                        return 'wrong module bound'
                elif op == 'load':
                    p = os.path.join(self.root, *o['loc'])
                    if o['ext']:
                        p += '.' + o['ext']
                    m = LT.loadTemplateModule(p)
                    if m is not sys.modules[o['loc'][-1]]:
                        return 'wrong module returned'
            except ImportError:
                return 'noimp'
            except SyntaxError:
                return 'syn'
            except ZeroDivisionError:
                return 'exc'
            return 'ok ' + desc(m)
        return 'ok'


def child(root, case):
    os.setgid(NOBODY)
    os.setuid(NOBODY)
    os.chdir(root)
    sys.dont_write_bytecode = False
    sys.stdout = io.StringIO()
    r = Runner(root, case['cfg'])
    obs = []
    for o in case['ops']:
        try:
            x = r.step(o)
        except Exception as e:
            x = '%s: %s' % (type(e).__name__, e)
        obs.append(r.state(x.replace(root, '')))
    return obs


def run(case):
    top = tempfile.mkdtemp(prefix='vhook')
    pid = 0
    try:
        os.chmod(top, 0o755)
        root = os.path.join(top, 'w')
        os.mkdir(root)
        os.chown(root, NOBODY, NOBODY)
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                os.close(rd)
                try:
                    res = {'obs': child(root, case)}
                except BaseException as e:
                    IH.uninstall()
                    res = {'err': '%s: %s' % (type(e).__name__, e)}
                b = json.dumps(res).encode()
                while b:
                    b = b[os.write(wr, b):]
            finally:
                os._exit(0)
        os.close(wr)
        data = b''
        with os.fdopen(rd, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        pid = 0
        return json.loads(data) if data else {'err': 'died'}
    finally:
        if pid:
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except OSError:
                pass
        shutil.rmtree(top, ignore_errors=True)
