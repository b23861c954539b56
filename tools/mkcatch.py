#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md, and the number of repairs. Missed ones are named on the command line."""
import glob, json, os, re, sys
verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = set(sys.argv[1:])
by = {}
for d in sorted(glob.glob(verif + '/seeded/*/meta.json')):
    m = json.load(open(d))
    by.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(d)), m))
lines = ['| property | planted bug | needs | caught by |', '|---|---|---|---|']
n = 0
for p in sorted(by):
    for i, m in by[p]:
        n += 1
        lines.append('| %s | %s | %s | %s |' % (p, i, m['needs'].replace('|', '\\|'), 'missed' if i in missed else p + ' quick'))
lines.insert(0, '%d planted bugs, %d caught by the quick check of their property.\n' % (n, n - len(missed)))
p = verif + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!-- catch -->.*?<!-- /catch -->', lambda _: '<!-- catch -->\n' + '\n'.join(lines) + '\n<!-- /catch -->', s, flags=re.S)
open(p, 'w').write(s)
print(n, 'bugs')
