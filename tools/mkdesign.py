"""DESIGN.md from tools/DESIGN.in: the findings, the planted bugs and the functions out of reach are filled in."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + '/tools/DESIGN.in').read()

out = []
for l in open(V + '/known/findings.txt'):
    l = l.strip()
    if l.startswith('fixed:'):
        p, c, what = l[6:].split(None, 2)
        out.append('| %s | fixed `%s` | %s |' % (p.split('=')[1], c, what))
    elif l.startswith('finding:'):
        p, k, what = l[8:].split(None, 2)
        out.append('| %s | known | %s |' % (p.split('=')[1], what))
s = s.replace('@@FINDINGS@@', '| property | | what failed |\n|---|---|---|\n' + '\n'.join(out))

caught = json.load(open(V + '/tools/seeds.json')) if os.path.exists(V + '/tools/seeds.json') else {}
rows = []
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    rows.append('| %s | %s | %s |' % (i, m['what_it_breaks'], caught.get(i, '')))
s = s.replace('@@SEEDS@@', '| id | what it breaks | caught by its property\'s check |\n|---|---|---|\n' + '\n'.join(rows))

b = []
for f in sorted(glob.glob(V + '/evidence/C*.json')):
    d = json.load(open(f))
    d = d.get('coverage', {}) if 'functions_bounded_only' not in d else d
    x = d.get('functions_bounded_only') or []
    if x:
        b.append('  * %s: %s' % (os.path.basename(f)[:3], ', '.join('`%s`' % y for y in x)))
s = s.replace('@@BOUNDED@@', '\n'.join(b))
open(V + '/DESIGN.md', 'w').write(s)
