#!/usr/bin/env python3
"""tools/plant.py ID...: confirm the planted bugs seeded/ID in scratch copies of
/repo (tests still pass, demo passes without and fails with the change) and run
the check of their property against them."""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True,
                          errors='replace', **kw)


def one(i, tests=True):
    d = os.path.join(V, 'seeded', i)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    top = tempfile.mkdtemp(prefix='plant-')
    w = os.path.join(top, 'repo')
    dem = os.path.join(top, 'd')
    try:
        sh(['cp', '-a', '/repo', w])
        shutil.copytree(d, dem)
        env = dict(os.environ)
        env.pop('VERIF_SEED', None)

        def demo():
            return sh(['bash', os.path.join(dem, 'demo.sh')], cwd=w,
                      timeout=300)

        def rebuild():
            t = open('/opt/vp/build.sh').read().replace('/repo', w)
            return sh(['bash', '-c', t])
        r0 = demo()
        if r0.returncode:
            return 'DEMO FAILS UNPATCHED\n' + r0.stdout[-800:]
        r = sh(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=w)
        if r.returncode:
            return 'DOES NOT APPLY ' + r.stdout
        r = rebuild()
        if r.returncode:
            return 'DOES NOT BUILD ' + r.stdout[-800:]
        r1 = demo()
        if r1.returncode == 0:
            return 'DEMO PASSES PATCHED'
        res = 'demo ok; '
        if tests:
            vp = os.path.join(top, 'vp')
            os.mkdir(vp)
            for f in ('test.sh', 'build.sh', 'run_module.py', 'results.py'):
                open(os.path.join(vp, f), 'w').write(
                    open('/opt/vp/' + f).read().replace('/repo', w)
                    .replace('/opt/vp', vp))
            t = open(vp + '/test.sh').read()
            o = os.path.join(top, 'o.json')
            r = sh(['bash', '-c', t, 'test.sh', o])
            base = json.load(open('/opt/vp/BASELINE.json'))
            b = set(base.get('passed', base.get('tests', base.get('stable', []))))
            got = json.load(open(o))
            p = set(got['passed'])
            if not b or b - p:
                return res + 'TESTS FAIL: %s' % sorted(b - p)[:5]
            res += '%d tests ok; ' % len(b)
        e = dict(os.environ, VERIF_REPO=w)
        r = sh(['python3', os.path.join(V, 'checks', meta['property'] + '.py')],
               env=e, cwd=V, timeout=1000)
        if r.returncode == 1 and 'VIOLATION property=' + meta['property'] \
                in r.stdout:
            return res + 'CAUGHT by ' + meta['property']
        return res + 'MISSED rc=%d %s' % (r.returncode, r.stdout[-300:])
    finally:
        shutil.rmtree(top, True)


if __name__ == '__main__':
    ids = [a for a in sys.argv[1:] if a[0] != '-'] or sorted(
        os.listdir(os.path.join(V, 'seeded')))
    for i in ids:
        print(i, one(i, '-n' not in sys.argv), flush=True)
