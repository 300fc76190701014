"""The standard filters, on a value, directly and in a template."""
from Cheetah import Filters
from Cheetah.Template import Template

KW = {'Also': ('WebSafe', {'also': ' "('}), 'MaxLen': ('MaxLen',
                                                     {'maxlen': 2})}
TM = {}


def run(case):
    s = case['s']
    out = {}
    for name in ('Filter', 'WebSafe', 'Also', 'MaxLen', 'Strip',
                 'StripSqueeze'):
        f, kw = KW.get(name, (name, {}))
        a = getattr(Filters, f)().filter(s, **kw)
        if name not in TM:
            args = ''.join(', %s=%r' % i for i in kw.items())
            TM[name] = Template.compile('[#filter %s#$v${v%s}#end filter#]'
                                        % (f, args))
        t = str(TM[name](searchList=[{'v': s}]))
        b = getattr(Filters, f)().filter(s)
        out[name] = a if t == '[' + b + a + ']' else \
            'direct %r, in a template %r' % (a, t)
    return {'r': out}
