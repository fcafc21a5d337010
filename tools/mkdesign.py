#!/usr/bin/env python3
"""Writes DESIGN.md from props/config.json, properties.jsonl, seeded/*/meta.json, known_findings.json and the texts below."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open(V + '/props/config.json'))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
kf = json.load(open(V + '/known_findings.json'))
manifest = {c.get('property', c.get('id')): c for c in json.load(open(V + '/MANIFEST.json')).get('checks', [])}

HEAD = open(V + '/tools/design_head.md').read()
TAIL = open(V + '/tools/design_tail.md').read()
WHY = {}
cur = None
for l in open(V + '/tools/design_props.md'):
    if l.startswith('## '):
        cur = l[3:].strip(); WHY[cur] = ''
    elif cur:
        WHY[cur] += l

seeds = {}
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m))
    seeds.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(m)), d))

o = [HEAD.rstrip(), '']
o.append('## Per property\n')
for p in props:
    i = p['id']
    c = cfg[i]
    o.append('### %s - %s\n' % (i, p['title']))
    o.append('*Generated.* ' + c['rule'].strip() + '\n')
    o.append(WHY[i].strip() + '\n')
    def sz(t):
        return ', '.join('%d workers x %d cases on the %s build' % (n, k, v) for v, (n, k) in c[t].items())
    o.append('*Size.* Quick: %s. Thorough: %s.\n' % (sz('quick'), sz('thorough')))
    if i in seeds:
        o.append('*Planted bugs caught.* ' + '; '.join('`%s`' % s for s, _ in seeds[i]) + '.\n')
    f = [x for x in kf['known'] if x['property'] == i or i in x.get('also', [])]
    if f:
        o.append('*Known findings.* ' + ', '.join(x['id'] for x in f) + '.\n')
    n = sum(1 for x in kf['fixed'] if ('property=%s ' % i) in x)
    if n:
        o.append('*Defects found and repaired.* %d (known_findings.json).\n' % n)
o.append('## Planted bugs and the checks that catch them\n')
o.append('Every change below builds, passes the 256 stable tests, has a demonstration, and is caught by the quick check of its property (`tools/seedlib.py` re-verifies all of that).\n')
o.append('| planted bug | caught by | needs | breaks |\n|---|---|---|---|')
for i in sorted(seeds):
    for s, d in seeds[i]:
        o.append('| %s | %s | %s | %s |' % (s, i, d['needs'].replace('|', '/'), d['what_it_breaks'].replace('|', '/')))
o.append('')
o.append('## Findings\n')
for x in kf['known']:
    o.append('* **%s** (known, %s): %s' % (x['id'], x['property'], x['what']))
o.append('\nRepaired (%d `fix:` commits in /repo, each found by the check named, each with the check reporting it again if reverted):\n' % len(kf['fixed']))
for x in kf['fixed']:
    _, pr, h, what = x.split(' ', 3)
    o.append('* %s `%s` %s' % (pr.split('=')[1], h, what))
o.append('')
o.append(TAIL.rstrip())
open(V + '/DESIGN.md', 'w').write('\n'.join(o) + '\n')
