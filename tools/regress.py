#!/usr/bin/env python3
"""For every 'fixed:' entry: undo the fix in a scratch copy of /repo and run
the property's check against it; it has to report a violation.
usage: regress.py [commit...]"""
import os, re, shutil, subprocess, sys, tempfile  # noqa: E401
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
want = sys.argv[1:]
for line in open(V + '/known_findings.txt'):
    m = re.match(r'fixed: property=(\S+) ([0-9a-f]{7,}) (.*)', line)
    if not m or (want and m.group(2) not in want):
        continue
    prop, commit, text = m.groups()
    if not os.path.exists(V + '/checks/%s.py' % prop):
        print(prop, commit, 'no check yet')
        continue
    d = tempfile.mkdtemp(prefix='regress-')
    try:
        r = d + '/repo'
        subprocess.check_call(['cp', '-a', '/repo', r])
        p = subprocess.run(['git', '-c', 'user.email=a@b', '-c',
                            'user.name=n', 'revert', '--no-edit', commit],
                           cwd=r, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        if p.returncode:
            print(prop, commit, 'CONFLICT', flush=True)
            continue
        e = dict(os.environ, VERIF_REPO=r)
        p = subprocess.run(['python3', V + '/checks/%s.py' % prop], env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = p.stdout.decode('utf8', 'replace')
        ok = p.returncode == 1 and 'VIOLATION property=%s' % prop in out
        print(prop, commit, 'detected' if ok else 'MISSED rc=%d'
              % p.returncode, '::', text[:90], flush=True)
    finally:
        shutil.rmtree(d, True)
