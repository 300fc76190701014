"""mk(id, property, [(file, old, new)...], demo_py, needs, breaks): writes
seeded/<id>."""
import json, os, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mk(i, prop, edits, demo, needs, breaks, demo_sh=None):
    d = os.path.join(V, 'seeded', i)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='mk-')
    subprocess.check_call(['git', 'clone', '-q', '/repo', w])
    for f, a, b in edits:
        p = os.path.join(w, f)
        s = open(p).read()
        assert s.count(a) == 1, (i, f, s.count(a), a)
        open(p, 'w').write(s.replace(a, b))
    diff = subprocess.check_output(['git', 'diff'], cwd=w, text=True)
    shutil.rmtree(w)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.py'), 'w').write(demo.lstrip('\n'))
    open(os.path.join(d, 'demo.sh'), 'w').write(demo_sh or (
        '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\n'
        'PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore '
        '"$(dirname "$0")/demo.py"\n'))
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
