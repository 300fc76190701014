"""Threads compiling and rendering under chosen schedules."""
import itertools
import random
import sys
import threading
import exec_compile as ec
import exec_cache
import exec_vm
import sched
from Cheetah.Template import Template

sys.setswitchinterval(1e-4)
uniq = itertools.count(1)


def gaps(s, rng):
    """s: {'pre': n} one switch after n events, or {'max': m} random"""
    if 'pre' in s:
        first = [s['pre']]
        return lambda: first.pop() if first else 10 ** 9
    return lambda: rng.randint(1, s['max'])


def run(case):
    rng = random.Random(case['sched']['seed'])
    return {'compile': run_compile, 'render': run_render, 'cache': run_cache}[case['kind']](
        case, rng)


class Finder:
    """importing vfnest_<u>_<n> executes a module that compiles a template"""
    def find_spec(self, name, path=None, target=None):
        if name.startswith('vfnest_'):
            from importlib.machinery import ModuleSpec
            return ModuleSpec(name, self)

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        mod.K = Template.compile('nested', moduleName=mod.__name__ + '_t')
        mod.v = mod.K().respond()


sys.meta_path.append(Finder())


def run_compile(case, rng):
    u = 'v%d' % next(uniq)
    th = case['threads']
    events = []
    lock = threading.Lock()
    classes = []
    s = sched.Sched(len(th), rng, gaps(case['sched'], rng))

    def cid(K):
        for i, k in enumerate(classes, 1):
            if k is K:
                return i
        classes.append(K)
        return len(classes)

    def body(i):
        def go():
            for o in th[i]:
                with lock:
                    events.append(['inv', i + 1, o])
                try:
                    K, text = request(o, u)
                    with lock:
                        events.append(['ret', i + 1, cid(K) if K else 0,
                                       text])
                except Exception as e:
                    with lock:
                        events.append(['ret', i + 1, 0, 'exc:%s %s' % (
                            type(e).__name__, str(e)[:100])])
        return go
    if not s.run([body(i) for i in range(len(th))]):
        return {'hang': True, 'events': events}
    return {'events': events, 'switches': s.switches,
            'err': [repr(e) for e in s.errors if e]}


def request(o, u):
    seen = []
    if o.get('nest'):
        # the template imports a module that compiles a template itself
        src = ('#from vfnest_%s_%s import v as nv\n' % (u, o['nest'])
               + ec.src(o['src'], u) + 'N:$nv\n')
        K = Template.compile(src, moduleName=o['mod'] or None)
        out = ec.norm(K().respond())
        if not out.endswith(' N:nested'):
            return K, 'bad nested import: ' + out
        return K, out[:-len(' N:nested')] + ' ' + K.__name__ + \
            '.respond m:' + modname(K)
    r = ec.step(o, '/nonexistent', seen, u)
    return (seen[0] if seen else None), r.split(' ', 1)[1]


def modname(K):
    import re
    m = re.sub(r'_\d+_\d+_\d+$', '', K.__module__)
    return re.sub('^cheetah_', '', m)


def run_render(case, rng):
    g = case['groups']
    n = len(g)
    res = [None] * n
    worlds = [None] * n
    pre = case['prebuilt']
    s = sched.Sched(n, rng, gaps(case['sched'], rng))

    def build(i):
        w = exec_vm.World.__new__(exec_vm.World)
        sh = g[i].get('share')
        if sh is not None:
            # same classes, objects and namespaces of its own
            it = iter(worlds[sh].classes)
            w.compile = lambda c: w.classes.append(next(it))
            w.__init__(g[i]['w'], g[i].get('seed', 0))
        else:
            w.__init__(g[i]['w'], g[i].get('seed', 0))
        worlds[i] = w

    def body(i):
        def go():
            try:
                if worlds[i] is None:
                    build(i)
                w = worlds[i]
            except Exception as e:
                res[i] = ['compile:%s' % type(e).__name__]
                return
            res[i] = [w.op(o) for o in g[i]['ops']]
        return go
    for i in range(n):
        if pre or g[i].get('share') is not None or any(
                x.get('share') == i for x in g):
            try:
                build(i)
            except Exception as e:
                return {'obs': [['compile:%s' % type(e).__name__]
                                for _ in g], 'src': None}
    ok = s.run([body(i) for i in range(n)])
    if not ok:
        return {'hang': True}
    return {'obs': res, 'src': [w.src if w else None for w in worlds],
            'switches': s.switches}



def run_cache(case, rng):
    """separate objects of one class with cache regions"""
    g = case['groups']
    res = [None] * len(g)
    exec_cache.run({'cfg': g[0]['cfg'], 'ops': []})
    s = sched.Sched(len(g), rng, gaps(case['sched'], rng))

    def body(i):
        def go():
            res[i] = exec_cache.run(g[i])['obs']
        return go
    if not s.run([body(i) for i in range(len(g))]):
        return {'hang': True}
    return {'obs': res, 'switches': s.switches,
            'err': [repr(e) for e in s.errors if e]}
