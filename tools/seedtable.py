"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (all are caught by the check of their property)"""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(os.path.join(root, 'seeded'))):
    m = json.load(open(os.path.join(root, 'seeded', d, 'meta.json')))
    rows.append('| %s | %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'], m['needs'], m['property']))
p = os.path.join(root, 'DESIGN.md')
s = open(p).read()
head = '| id | property | breaks | needs | caught by |\n|----|----|----|----|----|\n'
i = s.index(head) + len(head)
j = re.compile(r'(?:\| S.*\n)*').match(s, i).end()
open(p, 'w').write(s[:i] + '\n'.join(rows) + '\n' + s[j:])
