"""Prints the table of planted bugs for DESIGN.md (seeded/ is read here only, never by a check)."""
import json, os
d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
print('| planted bug | breaks | needs | caught by |\n|---|---|---|---|')
for i in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, i, 'meta.json')))
    print('| %s | %s | %s | %s |' % (i, m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), m['property']))
