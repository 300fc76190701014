"""Runs programs of assignments (spec/Assign.tla) as methods of a template."""
import random
import warnings

warnings.simplefilter('ignore')
from Cheetah.Template import Template                        # noqa: E402


class Obj(object):
    pass


class Lst(list):
    """a list that takes no part in arithmetic"""
    __slots__ = ()

    def _no(self, x):
        raise TypeError
    __add__ = __iadd__ = __radd__ = __mul__ = __imul__ = __rmul__ = _no


def key(n):
    return int(n) if n.lstrip('-').isdigit() else n


def path(p, r, ph):
    out = ''
    for q in p:
        if q['m'] == '.':
            out += '.' + q['n']
        elif q['m'] == '[':
            out += '[%r]' % key(q['n'])
        else:
            out += '[%s]' % (r.choice(['$', '$', ''] if not ph else ['$'])
                             + q['n'])
    return out


def ex(e, r):
    if e['k'] == 'i':
        return str(e['v'])
    s = '$' + e['x'] + path(e['path'], r, True)
    return s if e['k'] == 'p' else '%s + %d' % (s, e['n'])


def stmt(q, r):
    if q['k'] == 'set':
        sp = r.choice([' ', ' ', ''])
        return '#set %s%s%s%s%s%s%s\n' % (
            'global ' if q['g'] else r.choice(['', '', 'local ']),
            r.choice(['$', '$', '']), q['x'] + path(q['path'], r, False), sp,
            q['op'], sp, ex(q['e'], r))
    if q['k'] == 'set2':
        return '#set %s = %s, %s\n' % (
            r.choice(['$%s, $%s', '($%s, $%s)', '%s, %s', '[$%s, $%s]'])
            % (q['x'], q['y']), ex(q['a'], r), ex(q['b'], r))
    if q['k'] == 'del':
        return '#del %s%s\n' % (r.choice(['$', '']),
                                q['x'] + path(q['path'], r, False))
    return '${show(%s)};#slurp\n' % ex(dict(q, k='p'), r)


def run(case):
    cfg = case['cfg']
    r = random.Random(case.get('seed', 0))
    heap = [{'dict': dict, 'list': Lst, 'obj': Obj}[n['t']]()
            for n in cfg['heap']]

    def val(v):
        return v['v'] if v['t'] == 'i' else heap[v['v'] - 1]
    for n, h in zip(cfg['heap'], heap):
        f = n['f'] or {}
        if n['t'] == 'list':
            h.extend(val(f[str(j)]) for j in range(len(f)))
        elif n['t'] == 'dict':
            h.update((key(k), val(v)) for k, v in f.items())
        else:
            h.__dict__.update((k, val(v)) for k, v in f.items())

    def show(v):
        for j, h in enumerate(heap, 1):
            if v is h:
                return '@%d' % j
        return repr(v)
    src = ''
    for j, o in enumerate(case['ops']):
        src += '#def p%d\n%s#end def\n' % (
            j, ''.join(stmt(q, r) for q in o['prog']))
    ns = {x: val(v) for x, v in cfg['ns'].items()}
    before = dict(ns)
    try:
        t = Template.compile(src, cacheCompilationResults=False)(
            searchList=[ns, {'show': show}])
    except Exception as e:
        return {'src': src, 'err': repr(e)[:600]}
    obs = []
    for j in range(len(case['ops'])):
        try:
            v = getattr(t, 'p%d' % j)()
        except Exception:
            v = 'err'
        if set(ns) != set(before) or any(ns[x] is not before[x] for x in ns):
            v += '|caller'
        obs.append(v)
    return {'obs': obs, 'src': src}
