"""C20 web input."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'lib'))
import vf, statemachine as sm  # noqa: E401,E402

VALS = ['12', '-3', ' 7 ', '0', '1.5', 'x', '1e3', '0x10', '5;6', 'nan',
        'a b', '12x']


def gen(rng):
    method = rng.choice(['get', 'get', 'post', 'multipart', 'none'])
    fields = []
    for _ in range(rng.randint(0, 7) if method != 'none' else 0):
        f = {'k': rng.choice(['a', 'a', 'b', 'b', 'c', 'd', 'a:int',
                              'b:float', 'c:', 'a:float', 'z']),
             'v': rng.choice(VALS + [''] * (3 * (method != 'multipart'))),
             'up': method == 'multipart' and rng.random() < .3}
        fields.append(f)
    cfg = {'method': method, 'fields': fields}
    if method == 'post':
        cfg['split'] = rng.randint(0, len(fields))
        if fields[:cfg['split']] == []:
            cfg['split'] = len(fields)
    up = {f['k'].split(':')[0] for f in fields if f['up']}
    ops = []
    for _ in range(rng.randint(1, 4)):
        qs = []
        for multi in (False, True):
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                n = rng.choice('aabbccd')
                conv = rng.choice(['', '', '', 'int', 'int', 'float', 'float']
                                  + ['x'] * (rng.random() < .1))
                if n in up:
                    conv = ''
                qs.append({'n': n, 'conv': conv, 'multi': multi,
                           'colon': conv != '' or rng.random() < .1})
        ops.append({
            'op': 'fetch', 'qs': qs,
            'src': rng.choice(['f'] * 8 + ['v', 'F', 'V', 'c', 's', 'x', 'C']),
            'default': rng.choice(['s:', 's:D', 'n:None', '!KeyError',
                                   'i:3']),
            'defaultInt': rng.choice(['i:0', 'i:5', 's:none', '!ValueError',
                                      'n:None']),
            'defaultFloat': rng.choice(['f:0.0', 'f:2.5', '!KeyError',
                                        'n:None']),
            'badInt': rng.choice(['i:0', 'i:-1', 'n:None', 'n:None',
                                  '!NonNumericInputError', '!ValueError']),
            'badFloat': rng.choice(['f:0.0', 's:bad', 'n:None',
                                    '!NonNumericInputError', '!KeyError']),
            'debug': rng.random() < .15})
    return {'cfg': cfg, 'ops': ops}


def main():
    ck = vf.Check('C20')
    cfg = open(os.path.join(vf.SPEC, 'WebInputMC.cfg')).read()
    if ck.thorough():
        cfg = cfg.replace('"x", ""', '"x", "", "1.5", "0"')
    sm.replay(ck, 'web', 'WebInputMC', cfg, limit=ck.n(1500, 20000))
    cases = [gen(ck.rng) for _ in range(ck.n(4000, 40000))]
    sm.judge(ck, 'web', 'WebInputTrace', cases)
    ck.assumptions += ['the request is that of a CGI script']
    ck.finish()


vf.main(main)
