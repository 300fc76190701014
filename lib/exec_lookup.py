"""Builds object graphs of spec/NameLookup.tla and looks names up in them."""
import collections
import functools
import gc
import sys
import itertools
import types
from Cheetah import NameMapper as NM


class Boom(Exception):
    pass


EXC = {'Boom': Boom, 'AttributeError': AttributeError, 'KeyError': KeyError,
       'TypeError': TypeError, 'NotFound': NM.NotFound,
       'ValueError': ValueError}


class Map(collections.abc.Mapping):
    def __init__(self, d):
        self._d = d

    def __getitem__(self, k):
        return self._d[k]

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)


class OD(collections.OrderedDict):
    pass


class Val(str):
    pass


class Graph:
    def __init__(self, cfg):
        self.cfg = cfg
        self.dicts = []
        nodes = cfg['nodes']
        self.obj = [None] * (len(nodes) + 1)
        for i, nd in enumerate(nodes, 1):
            self.obj[i] = self.make(i, nd)
        for i, nd in enumerate(nodes, 1):
            self.link(i, nd)

    def res(self, r):
        if r['g'] == 'x':
            raise EXC[r['x']]('raised')
        return self.obj[r['i']]

    def make(self, i, nd):
        k = nd['k']
        if k == 'dict':
            return {}
        if k == 'dd':       # makes up missing items
            return collections.defaultdict(lambda: 'made up')
        if k == 'od':
            return OD()
        if k == 'mod':
            return types.ModuleType('m%d' % i)
        if k == 'cls':
            return type('C%d' % i, (), {})
        if k == 'val':
            return Val('v%d' % i)
        r = nd.get('ret') or {}
        if k == 'fn':
            if r.get('x') == 'TypeError':
                return lambda needed: None
            return lambda: self.res(r)
        if k == 'meth':
            return types.MethodType(lambda me: self.res(r), self)
        if k == 'builtin':
            if r.get('x') == 'TypeError':
                return [].append
            # a built-in method that calls back: next() of an iterator
            return map(lambda _: self.res(r), itertools.count()).__next__
        if k == 'partial':
            return functools.partial(int)
        # instances: their attributes are computed by a class of their own
        ns = {}
        if k == 'gi':       # item access, but no mapping
            return type('G', (), {'__getitem__': lambda me, key: 'item'})()
        base = Map if k == 'map' else object
        if k == 'cinst':
            ns['__call__'] = lambda me: 'called'
            if i % 3 == 0:     # dressed up as a function
                ns.update(__name__='f', __qualname__='f', __wrapped__=None)
            elif i % 3 == 1:
                ns['__slots__'] = ('__dict__',)
        t = type('T%d' % i, (base,), ns)
        return t({}) if k == 'map' else t()

    def link(self, i, nd):
        o = self.obj[i]
        k = nd['k']
        items = o._d if k == 'map' else o
        for n, j in (nd['items'] or {}).items():
            items[n] = self.obj[j]
        at = nd['attrs'] or {}
        if k == 'ga':
            g = self

            def ga(me, name):
                if name in at:
                    return g.res(at[name])
                raise AttributeError(name)
            type(o).__getattr__ = ga
            return
        for n, r in at.items():
            if r['g'] == 'n' and not (k in ('obj', 'cinst', 'map')
                                      and i % 2):
                setattr(o, n, self.obj[r['i']])
            else:
                setattr(type(o), n, property(
                    lambda me, r=r: self.res(r)))

    def show(self, v):
        for i in range(1, len(self.obj)):
            if self.obj[i] is v:
                return 'n%d' % i
        for i in range(1, len(self.obj)):
            if self.cfg['nodes'][i - 1]['k'] == 'builtin' \
                    and self.obj[i] == v:
                return 'n%d' % i
        if getattr(v, '__name__', '') in ('get', 'len'):
            return 'innate'
        return 'other:%r' % (v,)

    def ask(self, o):
        name = '.'.join(o['n'])
        ex = o['ex']
        if o['op'] == 'key':
            return NM.valueForKey(self.obj[o['o']], name)
        if o['op'] == 'name':
            if not ex:
                return NM.valueForName(self.obj[o['o']], name)
            return NM.valueForName(self.obj[o['o']], name,
                                   executeCallables=True)
        sl = [self.obj[j] for j in o.get('sl', ())]
        if o['op'] == 'sl':
            if ex:
                return NM.valueFromSearchList(sl, name, True)
            return NM.valueFromSearchList(tuple(sl), name)
        env = dict(self.obj[self.cfg['glo']])
        env['__builtins__'] = __builtins__
        env.update(_f=NM.valueFromFrame, _s=NM.valueFromFrameOrSearchList,
                   _sl=sl, _n=name, _x=ex)
        loc = self.obj[self.cfg['loc']]
        if o['op'] == 'frame':
            return eval('_f(_n, _x)', env, loc)
        return eval('_s(_sl, _n, executeCallables=_x)', env, loc)

    def answer(self, o):
        try:
            if o['op'] == 'hasname':
                return 'T' if NM.hasName(self.obj[o['o']],
                                         '.'.join(o['n'])) else 'F'
            return self.show(self.ask(o))
        except NM.NotFound as e:
            if o['op'] == 'hasname':
                return 'F'
            t = str(e)
            if t.startswith("cannot find '"):
                return 'nf:' + t.split("'")[1]
            return 'exc:NotFound'
        except (Boom, AttributeError, KeyError, TypeError, ValueError) as e:
            if isinstance(e, TypeError) and str(e) != 'raised':
                pass
            return 'exc:' + type(e).__name__


def run(case):
    g = Graph(case['cfg'])
    before = [dict(x) if isinstance(x, dict) else None for x in g.obj]
    obs = []
    for o in case['ops']:
        r = g.answer(o)
        if [dict(x) if isinstance(x, dict) else None
                for x in g.obj] != before:
            r += '|changed'
        obs.append(r)
    if not case.get('refs'):
        return {'obs': obs, 'c': getattr(NM, 'C_VERSION', None)}
    # a lookup keeps no reference to the objects it walks over
    seen = g.obj[1:] + [o for o in g.dicts]
    n0 = [sys.getrefcount(o) for o in seen]
    for _ in range(12):
        for o in case['ops']:
            g.answer(o)
    gc.collect()
    if any(b - a >= 12 or a - b >= 12
           for a, b in zip(n0, [sys.getrefcount(o) for o in seen])):
        obs[-1] += '|references kept or dropped'
    return {'obs': obs, 'c': getattr(NM, 'C_VERSION', None)}
