"""rewrite the table of planted changes in DESIGN.md"""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sorted(os.listdir(os.path.join(here, 'seeded')))
cells = []
for i in ids:
    m = json.load(open(os.path.join(here, 'seeded', i, 'meta.json')))
    cells.append('%s | %s' % (i, m['property']))
if len(cells) % 2:
    cells.append(' | ')
rows = ['| %s | %s |' % (cells[k], cells[k + 1])
        for k in range(0, len(cells), 2)]
f = os.path.join(here, 'DESIGN.md')
s = open(f).read()
head = '| change | property | change | property |\n|---|---|---|---|\n'
a, b = s.split(head)
b = b[b.index('\n\n'):] if '\n\n' in b else ''
open(f, 'w').write(a + head + '\n'.join(rows) + b)
