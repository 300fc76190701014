"""Fetches fields of a request made in the environment of a CGI script.
Each case runs in a process of its own (a request is read once)."""
import contextlib
import io
import json
import os
import sys
import warnings
from urllib.parse import quote_plus

warnings.simplefilter('ignore')
from Cheetah.Template import Template                        # noqa: E402
from Cheetah.Utils.WebInputMixin import NonNumericInputError  # noqa: E402

T = Template.compile('#*w*#$a#slurp\n')
NAMES = 'abcd'
EXC = {'!KeyError': KeyError, '!ValueError': ValueError,
       '!NonNumericInputError': NonNumericInputError,
       '!TypeError': TypeError}


def token(x):
    if isinstance(x, list):
        return '[%s]' % ','.join(token(y) for y in x)
    if isinstance(x, bytes):
        return 'b:' + x.decode()
    return {str: 's', int: 'i', float: 'f', type(None): 'n'}.get(
        type(x), type(x).__name__) + ':' + str(x)


def value(t):
    if t in EXC:
        return EXC[t]
    k, v = t.split(':', 1)
    return {'s': str, 'i': int, 'f': float, 'n': lambda _: None}[k](v)


def urlenc(fields):
    return '&'.join('%s=%s' % (quote_plus(f['k']), quote_plus(f['v']))
                    for f in fields)


def request(case):
    c = case['cfg']
    env, body = {}, b''
    if c['method'] == 'get':
        env = {'REQUEST_METHOD': 'GET', 'QUERY_STRING': urlenc(c['fields'])}
    elif c['method'] == 'post':
        n = c.get('split', len(c['fields']))
        body = urlenc(c['fields'][:n]).encode()
        env = {'REQUEST_METHOD': 'POST',
               'QUERY_STRING': urlenc(c['fields'][n:]),
               'CONTENT_TYPE': 'application/x-www-form-urlencoded'}
    elif c['method'] == 'multipart':
        for f in c['fields']:
            body += ('--BB\r\nContent-Disposition: form-data; name="%s"%s\r\n'
                     '\r\n%s\r\n' % (f['k'], '; filename="u.txt"\r\n'
                                     'Content-Type: application/octet-stream'
                                     if f['up'] else '', f['v'])).encode()
        body += b'--BB--\r\n'
        env = {'REQUEST_METHOD': 'POST', 'QUERY_STRING': '',
               'CONTENT_TYPE': 'multipart/form-data; boundary=BB'}
    if body:
        env['CONTENT_LENGTH'] = str(len(body))
    return env, body


def child(case):
    env, body = request(case)
    for k in ('REQUEST_METHOD', 'QUERY_STRING', 'CONTENT_TYPE',
              'CONTENT_LENGTH'):
        os.environ.pop(k, None)
    os.environ.update(env)
    sys.argv = ['x']
    sys.stdin = io.TextIOWrapper(io.BytesIO(body), encoding='utf8')
    ns = {'a': 'NS', 'd': 'NS'}
    t = T(searchList=[ns])
    obs = []
    for o in case['ops']:
        def name(q):
            return q['n'] + (':' + q['conv'] if q['colon'] else '')
        kw = {k: value(o[k]) for k in ('default', 'defaultInt',
                                       'defaultFloat', 'badInt', 'badFloat')}
        qs = o['qs']
        n1 = [name(q) for q in qs if not q['multi']]
        n2 = [name(q) for q in qs if q['multi']]
        a1, a2 = list(n1), list(n2)
        out = io.StringIO()
        d = {}
        bad = []
        try:
            with contextlib.redirect_stdout(out):
                d = t.webInput(n1, n2, src=o['src'], debug=o['debug'], **kw)
            r = 'ok'
            if t.searchList()[0] is not d:
                bad.append('dictionary not first in the search list')
        except Exception as e:
            r = '!' + type(e).__name__
            if o['src'] not in 'fFvVcCs' and r in ('!TypeError',
                                                   '!ValueError'):
                r = '!src'
        if (a1, a2) != (n1, n2):
            bad.append('arguments changed')
        if ns != {'a': 'NS', 'd': 'NS'}:
            bad.append('namespace changed')
        x = {'r': r, 'out': bool(out.getvalue()),
             'dic': ['%s=%s' % (k, token(d[k])) for k in sorted(d)],
             'vars': ['%s=%s' % (n, token(t.getVar(n)) if t.hasVar(n)
                                 else '-') for n in NAMES]}
        if bad:
            x['bad'] = bad
        obs.append(x)
    return obs


def run(case):
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            try:
                res = {'obs': child(case)}
            except BaseException as e:
                res = {'err': '%s: %s' % (type(e).__name__, e)}
            b = json.dumps(res).encode()
            while b:
                b = b[os.write(wr, b):]
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return json.loads(data) if data else {'err': 'died'}
