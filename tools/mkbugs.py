"""Writes the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import os
import json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '## Planted bugs\n'
rows = []
for i in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (i, m['what_it_breaks'].rstrip('.'), m['needs'].rstrip('.'), m.get('caught_by', m['property'])))
p = os.path.join(V, 'DESIGN.md')
t = open(p).read()
head, _, tail = t.partition(MARK)
rest = tail[tail.index('\n## '):] if '\n## ' in tail else ''
open(p, 'w').write(head + MARK + '''
Each was written from the text of a property and the code, in a scratch copy, and passes the stable tests.  All are caught by
the quick check of the property they break; those which were missed at first are what the fixtures were extended for.

| id | what it breaks | needs | caught by |
|---|---|---|---|
''' + '\n'.join(rows) + '\n' + rest)
