"""Rewrite the findings list (from known_findings.txt) and the table of planted bugs (from seeded/*/meta.json) in DESIGN.md."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + '/DESIGN.md').read()
fx = ['* ' + l.split('fixed: ', 1)[1].strip() for l in open(V + '/known_findings.txt') if l.startswith('fixed: ')]
t = re.sub(r'(\n## 3\. .*?\n\n.*?\n\n)(\* .*?\n)+', lambda m: m.group(1) + '\n'.join(fx) + '\n', t, count=1, flags=re.S)
rows = []
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    i = f.split('/')[-2]
    rows.append('| %s | %s | %s | %s | %s quick |' % (i, m['property'], m['what_it_breaks'], m['needs'], m['property']))
head = '| change | property | what it does | needs | caught by |\n|---|---|---|---|---|\n'
t = re.sub(r'\| change \| property .*?\n(\|.*\n)+', lambda m: head + '\n'.join(rows) + '\n', t)
open(V + '/DESIGN.md', 'w').write(t)
