"""Rewrite DESIGN.md's table of planted bugs (its last section) from seeded/*/meta.json."""
import json, glob, os
H = '| id | caught by | breaks | needs |\n|---|---|---|---|\n'
p = os.path.join(os.path.dirname(__file__), '..', 'DESIGN.md')
s = open(p).read()
head = s[:s.index(H) + len(H)]
rows = []
for m in sorted(glob.glob(os.path.join(os.path.dirname(p), 'seeded', '*', 'meta.json'))):
    d = json.load(open(m))
    c = lambda t: ' '.join(str(t).split()).replace('|', '\\|')
    rows.append('| %s | %s | %s | %s |\n' % (os.path.basename(os.path.dirname(m)),
                c(d['property']), c(d['what_it_breaks']), c(d['needs'])))
open(p, 'w').write(head + ''.join(rows))
