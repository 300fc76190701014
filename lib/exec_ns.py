"""Histories of spec/Namespaces.tla on real templates."""
import collections
import sys
import types
from Cheetah.Template import Template
from Cheetah.NameMapper import NotFound


class Map(collections.abc.MutableMapping):
    def __init__(self):
        self.d = {}

    def __getitem__(self, k):
        return self.d[k]

    def __setitem__(self, k, v):
        self.d[k] = v

    def __delitem__(self, k):
        del self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


class Obj:
    pass


class Slots:
    __slots__ = ('x', 'y', 'Ellipsis', 'KeyError', 'val_', 'nf_', 'z')


class Plain:
    def __init__(self, i):
        self.i = i

    def __str__(self):
        return 'V%d' % self.i


class HoldO(Plain):
    pass


class HoldD(dict):
    def __str__(self):
        return 'V%d' % self.i


def nf(e):
    if isinstance(e, NotFound) and str(e).startswith("cannot find '"):
        return '!' + str(e).split("'")[1]
    return '?%s:%s' % (type(e).__name__, e)


ODD = {'None': None, 'zero': 0, 'empty': '', 'no': False, 'tuple': (),
       'float': 0.0}
current = [None]


def text(v):
    for i, w in enumerate(current[0]):
        if i and v is w:
            return 'V%d' % i
    for b in ('Ellipsis', 'KeyError'):
        if v is getattr(__import__('builtins'), b):
            return 'B' + b
    return str(v)


def source(cfg, r):
    bodies = {}
    count = [0]

    def stmts(ss):
        return ''.join(stmt(s) for s in ss)

    def name(s):
        return s['n'] + ('.' + s['m'] if s['m'] else '')

    def stmt(s):
        k = s['s']
        if k == 'set':
            return r(['#set $%s = $val_(%d)#', '#set %s = $val_(%d)#',
                      '\n#set $%s = $val_(%d)\n']) % (s['n'], s['v'])
        if k == 'gset':
            return r(['#set global $%s = $val_(%d)#',
                      '\n#set global %s = $val_(%d)\n']) % (s['n'], s['v'])
        if k == 'del':
            return r(['#del %s#', '#del $%s#', '\n#del $%s\n']) % s['n']
        if k == 'ask':
            return '#try#[' + r([
                '${txt_($%s)}', '#echo $txt_($%s)#',
                '#set $tmp_ = $%s#${txt_($tmp_)}']) % name(s) \
                + ']#except Exception as e_#${nf_($e_)}#end try#'
        if k == 'has':
            return '#if $self.%s("%s")#T#else#F#end if#' % (
                r(['hasVar', 'varExists']), r(['', '$']) + name(s))
        if k == 'get':
            return '(${txt_($self.getVar("%s", "D"))})' % name(s)
        if k == 'call':
            return r(['${%s($val_(%d))}', '${self.%s($val_(%d))}']) % (
                s['n'], s['v'])
        if k == 'clo':
            x = s['n']
            d, e = r([('#closure', '#end closure'), ('#def', '#end def')])
            count[0] += 1
            c = 'clo%d_' % count[0]
            inner = ''
            if s['m']:
                inner = '%s in_%s(q_)\n<$q_>#slurp\n%s\n${in_%s($%s)}' % (
                    d, c, e, c, x)
            return '\n%s %s(%s)\n{$%s%s}#slurp\n%s\n${%s($val_(%d))}' % (
                d, c, x, x, '#slurp\n' + inner if inner else '', e, c, s['v'])
        if k == 'for':
            return '#for $%s in [%s]#%s#end for#' % (
                s['n'], ', '.join('$val_(%d)' % v for v in s['vs']),
                stmts(s['body']))
        raise ValueError(k)
    out = []
    for m in sorted(cfg['meths']):
        bodies[m] = stmts(cfg['meths'][m]['body'])
        if m != 'main':
            out.append('#def %s(%s)\n%s#slurp\n#end def\n' % (
                m, cfg['meths'][m]['p'], bodies[m]))
    return ''.join(out), bodies['main']


def run(case):
    cfg = case['cfg']
    n = [case.get('style', len(str(case)))]

    def r(xs):
        n[0] = (n[0] * 1103515245 + 12345) % 2**31
        return xs[(n[0] >> 16) % len(xs)]
    vals = [None]
    for i, v in enumerate(cfg['vals'], 1):
        if v['k'] == 'v':
            vals.append(ODD[v['z']] if v.get('z') else Plain(i))
        elif v['k'] == 'h':
            if r([0, 1]):
                h = HoldD()
            else:
                h = HoldO(i)
            h.i = i
            vals.append(h)
        else:
            vals.append(None)
    for i, v in enumerate(cfg['vals'], 1):
        p = v['p'] or {}
        if v['k'] == 'h':
            for a, j in p.items():
                if isinstance(vals[i], dict):
                    vals[i][a] = vals[j] or vals[1]
                else:
                    setattr(vals[i], a, vals[j])
        elif v['k'] == 'f':
            vals[i] = (lambda j: lambda *a: vals[j])(p['ret'])
    for i, v in enumerate(cfg['vals'], 1):
        if v['k'] == 'h' and isinstance(vals[i], dict):
            for a, j in (v['p'] or {}).items():
                vals[i][a] = vals[j]
        elif v['k'] == 'h':
            for a, j in (v['p'] or {}).items():
                setattr(vals[i], a, vals[j])
    current[0] = vals
    defs, main = source(cfg, r)
    direct = cfg.get('direct')
    head = ''
    mg = {}
    late = []
    for x, v in (cfg['mod'] or {}).items():
        how = r(['globals', 'directive', 'set'])
        if direct and how == 'globals':
            how = 'set'
        if how == 'globals':
            mg[x] = vals[v]
        elif how == 'directive':
            head += '#set module $%s = vals_[%d]\n' % (x, v)
        else:
            late.append((1, x, vals[v]))
    for x, v in (cfg['cls'] or {}).items():
        if r(['attr', 'set']) == 'attr' and not direct:
            head += '#attr $%s = vals_[%d]\n' % (x, v)
        else:
            late.append((0, x, vals[v]))
    cset = {}
    if not cfg['ac']:
        cset['useAutocalling'] = False
    if not cfg.get('stack', True):
        cset['useStackFrames'] = False
    mg['vals_'] = vals
    if 'module $' in head or direct:
        # module-level code runs before the globals are put in
        pre = types.ModuleType('vf_vals_')
        pre.vals_ = vals
        sys.modules['vf_vals_'] = pre
        head = '#from vf_vals_ import vals_\n' + head
    if direct:
        # the application's subclass of Template is given the source
        base = type('Base', (Template,), {})
        cls = type('Sub', (base,), {})
        mods = []
        modset = {x: v for m, x, v in late if m}
        for m, x, v in late:
            if not m:
                setattr(r([base, cls]), x, v)

        def msetall(x, v):
            modset[x] = v
            for m in mods:
                setattr(m, x, v)
    else:
        cls = Template.compile(head + defs + main, useCache=False,
                               cacheCompilationResults=False,
                               compilerSettings=cset, moduleGlobals=mg)
        modu = sys.modules[cls.__module__]
        for m, x, v in late:
            setattr(modu if m else cls, x, v)

        def msetall(x, v):
            setattr(modu, x, v)
    pool = [{'dict': dict, 'map': Map, 'obj': Obj, 'slots': Slots,
             'mod': lambda: types.ModuleType('ns')}[k]() for k in cfg['pool']]

    def put(o, x, v):
        if isinstance(o, (dict, Map)):
            o[x] = v
        else:
            setattr(o, x, v)

    def rm(o, x):
        if isinstance(o, (dict, Map)):
            o.pop(x, None)
        elif hasattr(o, x):
            delattr(o, x)

    def has(o, x):
        return x in o if isinstance(o, (dict, Map)) else hasattr(o, x)
    tools = {'val_': lambda i: vals[i], 'nf_': nf, 'txt_': text}
    objs = [None]
    obs = []
    for o in case['ops']:
        op = o['op']
        try:
            if op == 'new':
                sl = [pool[j - 1] for j in o['sl']] + [tools]
                kw = {}
                if cfg['prio']:
                    kw['compilerSettings'] = {
                        'prioritizeSearchListOverSelf': True}
                w = r(['list', 'tuple', 'ns', 'nstuple'])
                kw['namespaces' if w[:2] == 'ns' else 'searchList'] = \
                    tuple(sl) if 'tuple' in w else sl
                if direct:
                    if cset:
                        kw['compilerSettings'] = dict(
                            cset, **kw.get('compilerSettings', {}))
                    objs.append(cls(head + defs + main, **kw))
                    mods.append(sys.modules[objs[-1].respond.__func__
                                            .__module__])
                    for x, v in modset.items():
                        setattr(mods[-1], x, v)
                else:
                    objs.append(cls(**kw))
                res = 'ok'
            elif op == 'put':
                put(pool[o['i'] - 1], o['n'], vals[o['v']])
                res = 'ok'
            elif op == 'rm':
                rm(pool[o['i'] - 1], o['n'])
                res = 'ok'
            elif op == 'iset':
                setattr(objs[o['i']], o['n'], vals[o['v']])
                res = 'ok'
            elif op == 'idel':
                objs[o['i']].__dict__.pop(o['n'], None)
                res = 'ok'
            elif op == 'cset':
                setattr(cls, o['n'], vals[o['v']])
                res = 'ok'
            elif op == 'mset':
                msetall(o['n'], vals[o['v']])
                res = 'ok'
            elif op == 'render':
                res = objs[o['i']].respond().replace('\n', '')
            else:
                nm = o['n'] + ('.' + o['m'] if o['m'] else '')
                if op == 'has':
                    res = 'T' if objs[o['i']].hasVar(nm) else 'F'
                elif o['v'] == 1:
                    res = text(objs[o['i']].getVar(nm, 'D'))
                else:
                    res = text(objs[o['i']].getVar(nm))
        except NotFound as e:
            res = nf(e)
        except Exception as e:
            res = 'exc:%s:%s' % (type(e).__name__, e)
        obs.append(res)
    return {'obs': obs}
