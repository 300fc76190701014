"""Runs the cheetah command over a scratch tree and reports the tree after
each run.  Every run is a process of its own, of an unprivileged user, so
that whatever path the code computes nothing outside the tree can change."""
import json
import os
import pickle
import re
import shutil
import signal
import sys
import tempfile
import time

import Cheetah.CheetahWrapper as CW
import Cheetah.ImportHooks                                   # noqa: F401
import Cheetah.ErrorCatchers                                 # noqa: F401
from Cheetah.Template import Template
import random

str(Template('#*w*#$x#slurp\n', searchList=[{'x': 1}]))
import encodings.latin_1, encodings.utf_8, traceback         # noqa
NOBODY = 65534

SRC = {'t1': '#*c*#one<t1>\n', 't2': '#*c*#two<t2>\n', 'bad': '#*c*#$[<bad>\n',
       'rbad': "#raise ValueError('rbad')\n<rbad>\n",
       'kill': '#import os\n#silent os.kill(os.getpid(), 9)\n<kill>\n',
       'x': '#*c*#$x<x>\n', 'at': '#*c*#@x<at>\n'}
IDS = {v: k for k, v in SRC.items()}
META = re.compile(r'^__CHEETAH_(genTime|genTimestamp|src|srcLastModified)__.*$',
                  re.M)
pymemo = {}


def name(n):
    return '.'.join(n)


def rel(p):
    return '/'.join(name(n) for n in p) or '.'


def pytoken(text):
    key = META.sub('', text)
    if key not in pymemo:
        pymemo[key] = pytoken1(text)
    return pymemo[key]


def pytoken1(text):
    sb = text.split('\n', 1)[0]
    sb = '' if sb == '#!/usr/bin/env python' else '|' + sb
    ns = {'__name__': 'm'}
    try:
        exec(compile(text, 'm', 'exec'), ns)
    except Exception as e:
        return 'py!' + type(e).__name__
    cl = [k for k, v in ns.items() if isinstance(v, type)
          and issubclass(v, Template) and v is not Template]
    if len(cl) != 1:
        return 'py!classes %s' % cl
    if '<kill>' in text:
        out = 'kill'
    else:
        try:
            out = str(ns[cl[0]](searchList=[{'x': 'X'}]))
            out = out[:-1] if out.endswith('\n') else '?' + out
        except Exception as e:
            out = str(e)
    return 'py:%s:%s%s' % (cl[0], out, sb)


def token(path):
    with open(path, 'rb') as f:
        b = f.read()
    if os.path.basename(path) == '__init__.py' and not b.strip():
        return 'init'
    try:
        t = b.decode('utf8').replace('\xe9', 'U')
    except UnicodeDecodeError:
        t = b.decode('latin-1').replace('\xe9', 'L')
    if t in IDS:
        return IDS[t]
    if 'Cheetah' in t:
        return pytoken(t)
    return '=' + t[:-1] if t.endswith('\n') else '?' + t


def tree(root):
    out = {'.': 'dir'}
    for d, ds, fs in os.walk(root):
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), root)] = 'dir'
        for x in fs:
            p = os.path.join(d, x)
            out[os.path.relpath(p, root)] = \
                'link' if os.path.islink(p) else token(p)
    return out


def spell(r, root, d, isdir=True):
    """one of the ways to write a path"""
    p = '/'.join(name(n) for n in d['p'])
    if d['abs']:
        return (root + '/' + p) if p else root
    x = r.random()
    if not p:
        return '.'
    if x < .15:
        return './' + p
    if isdir and x < .3:
        return p + '/'
    if isdir and x < .4:
        return p + '//'
    if isdir and x < .5:
        return p + '/.'
    if x < .55 and '/' in p:
        return p.replace('/', '//', 1)
    return p


def argv(r, root, data, o):
    a = [r.choice([o['cmd'], o['cmd'][0], '--' + o['cmd']])]
    opt = []
    for k in ('idir', 'odir'):
        if o[k]['given']:
            opt.append(['--' + k, spell(r, root, o[k])])
    e = name(o['iext'])
    if e != 'tmpl' or r.random() < .2:
        opt.append(['--iext', e and r.choice(['', '.']) + e])
    e = name(o['oext'])
    if e != {'compile': 'py', 'fill': 'html'}[o['cmd']] or r.random() < .2:
        opt.append(['--oext', r.choice(['', '.']) + e])
    if o['recurse']:
        opt.append(['-R'])
    for k in ('flat', 'nobackup', 'env'):
        if o[k]:
            opt.append(['--' + k])
    if o['stdout']:
        opt.append([r.choice(['--stdout', '-p'])])
    if o['parallel'] > 1:
        opt.append(['--parallel', str(o['parallel'])])
    for k in ('json', 'pickle'):
        if o[k]:
            opt.append(['--' + k, os.path.join(data, k + o[k])])
    if o['settings']:
        opt.append(['--settings', {'at': 'cheetahVarStartToken="@"',
                                   'invalid': 'noSuchSetting=1'
                                   }[o['settings']]])
    if o['shbang']:
        opt.append(['--shbang', o['shbang']])
    if o['encoding']:
        opt.append(['--encoding', o['encoding']])
    if o.get('quiet'):
        opt.append(['--quiet'])
    r.shuffle(opt)
    files = []
    if o['stdin']:
        files = ['-']
    for x in o['args']:
        if x['abs']:
            files.append(root + '/' + '/'.join(name(n) for n in x['p']))
        else:
            files.append(spell(r, root, x, False))
    opts = sum(opt, [])
    if r.random() < .2 and not o['stdin']:
        return a + files + opts
    return a + opts + files


def child(root, args, o, fin, fout, ferr):
    os.setsid()
    os.setgroups([])
    os.setgid(NOBODY)
    os.setuid(NOBODY)
    os.umask(0o022)
    os.chdir(root)
    os.dup2(fin, 0)
    os.dup2(fout, 1)
    os.dup2(ferr, 2)
    sys.stdin = open(0, closefd=False, encoding='utf8')
    sys.stdout = open(1, 'w', closefd=False, encoding='utf8')
    sys.stderr = open(2, 'w', buffering=1, closefd=False, encoding='utf8')
    os.environ.clear()
    os.environ.update(x='E', PATH='/usr/bin:/bin')
    sys.argv = ['cheetah'] + args
    if o['parallel'] > 1:
        real = os.mkdir

        def mkdir(*a, **k):
            time.sleep(.015)          # a schedule: the others get here too
            return real(*a, **k)
        os.mkdir = mkdir
    code = 1
    try:
        CW.CheetahWrapper().main(list(sys.argv))
        code = 0
    except SystemExit as e:
        c = e.code
        if c is None:
            code = 0
        elif isinstance(c, int):
            code = c & 255
        else:
            sys.stderr.write(str(c) + '\n')
    except BaseException:
        traceback.print_exc()
    finally:
        try:
            sys.stdout.flush()
            sys.stderr.flush()
        except Exception:
            code = code or 120
        os._exit(code)


def one(root, data, o, r):
    args = argv(r, root, data, o)
    fin = os.open(os.path.join(data, 'src' + o['stdin'])
                  if o['stdin'] else '/dev/null', os.O_RDONLY)
    po, pe = os.path.join(data, 'stdout'), os.path.join(data, 'stderr')
    fout = os.open(po, os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
    ferr = os.open(pe, os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
    pid = os.fork()
    if not pid:
        child(root, args, o, fin, fout, ferr)
    try:
        _, st = os.waitpid(pid, 0)
    except BaseException:
        os.killpg(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    finally:
        for f in (fin, fout, ferr):
            os.close(f)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    out = open(po, encoding='utf8').read().replace('\xe9', 'U')
    err = open(pe, encoding='utf8', errors='replace').read()
    pieces = []
    if o['stdout'] or o['stdin']:
        if o['cmd'] == 'fill':
            pieces = out.split('\n')
            if pieces and pieces[-1] == '':
                pieces.pop()
        elif out:
            sb = out.split('\n', 1)[0]
            pieces = [pytoken(sb + x) for x in out.split(sb)[1:]]
        noise = False
    else:
        noise = bool(o.get('quiet') and out)
    bag = {'': 0}
    for x in pieces:
        bag[x] = bag.get(x, 0) + 1
    names = {name((o['idir']['p'] + x['p'] if not x['abs'] else x['p'])[-1])
             for x in o['args'] if x['p']}
    warn = {'': 1}
    for line in err.split('\n'):
        if line.startswith('Skipping'):
            for n in names:
                if re.search(r"(?<![\w.])%s'" % re.escape(n), line):
                    warn[n] = 1
    files = [x for x in o['args']]
    ordered = o['stdout'] and o['parallel'] <= 1 and files
    return {'tree': tree(root), 'ok': st == 0, 'out': bag,
            'order': pieces if ordered and not any(
                os.path.isdir(os.path.join(root, rel(
                    (x['p'] if x['abs'] else o['idir']['p'] + x['p']))))
                for x in files) else [],
            'warn': warn, 'noise': noise}, args, err[-400:]


def run(case):
    top = tempfile.mkdtemp(prefix='vcli')
    try:
        os.chmod(top, 0o755)
        root = os.path.join(top, 'w')
        data = os.path.join(top, 'd')
        os.mkdir(root)
        os.mkdir(data)
        for k, v in SRC.items():
            with open(os.path.join(data, 'src' + k), 'w') as f:
                f.write(v)
        for v, x in (('J', 'J'), ('U', '\xe9')):
            with open(os.path.join(data, 'json' + v), 'w') as f:
                json.dump({'x': x}, f)
        with open(os.path.join(data, 'pickleP'), 'wb') as f:
            pickle.dump({'x': 'P', 'y': 1}, f)
        for e in case['cfg']['fs']:
            p = os.path.join(root, rel(e['p']))
            if e['c'] == 'dir':
                os.mkdir(p)
            else:
                with open(p, 'w') as f:
                    f.write('' if e['c'] == 'init' else SRC[e['c']]
                            if e['c'] in SRC else e['c'][1:] + '\n')
            os.chown(p, NOBODY, NOBODY)
        os.chown(root, NOBODY, NOBODY)
        r = random.Random(json.dumps(case['ops'], sort_keys=True))
        obs, meta = [], []
        for o in case['ops']:
            x, args, err = one(root, data, o, r)
            obs.append(x)
            meta.append([[a.replace(top, '') for a in args], err[-300:]])
        return {'obs': obs, 'meta': meta}
    finally:
        shutil.rmtree(top, ignore_errors=True)
