#!/usr/bin/env python3
# Regenerates DESIGN.md from tools/DESIGN.tmpl, checks.py, properties.jsonl and seeded/. Not run by any check.
import sys, json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import checks
P = {p['id']: p for p in map(json.loads, open(V + '/properties.jsonl'))}
b = ''
for c in sorted(checks.CHECKS):
    k = checks.CHECKS[c]
    b += '* **%s — %s.** %s' % (c, P[c]['title'], k['bounds'])
    if k['outside']: b += ' *Outside:* ' + k['outside']
    if k['assumptions']: b += ' *Assumes:* ' + ' '.join(k['assumptions'])
    b += ' *Harnesses:* ' + ', '.join('`%s`' % h.name for h in k['harnesses']) + '.\n'
for c in sorted(checks.NA): b += '* **%s — %s.** Not applicable: %s\n' % (c, P[c]['title'], checks.NA[c])
caught = json.load(open(V + '/tools/caught.json')) if os.path.exists(V + '/tools/caught.json') else {}
s = '| planted change | property | needs | reported by |\n|---|---|---|---|\n'
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    s += '| `%s` | %s | %s | %s |\n' % (i, m['property'], m['needs'], caught.get(i, 'not run'))
t = open(V + '/tools/DESIGN.tmpl').read().replace('@@BOUNDS@@', b.rstrip()).replace('@@SEEDED@@', s.rstrip())
open(V + '/DESIGN.md', 'w').write(t)
