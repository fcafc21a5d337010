#!/usr/bin/env python3
"""Writes props/config.json and MANIFEST.json from the table below (only properties with a props/<id>.php are claimed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
Q = {'asan': [5, 40000], 'plain': [3, 80000]}
STATEFUL = 'stateful property-based testing against a reference model (generated histories, shrinking), sanitizer build'
T = {}


def t(pid, rule, tech=STATEFUL, quick=None, mult=25, note=''):
    q = quick or Q
    T[pid] = dict(rule=rule, technique=tech, note=note, quick=q, thorough={v: [n, c * mult] for v, (n, c) in q.items()})


exec(open(os.path.join(V, 'tools/table.py')).read())

cfg = {}
checks = []
na = []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)['id']
    if p in T and os.path.exists(os.path.join(V, 'props', p + '.php')):
        x = T[p]
        cfg[p] = dict(rule=x['rule'], quick=x['quick'], thorough=x['thorough'])
        checks.append(dict(property=p, quick_cmd='VERIF_TIER=quick python3 bin/check.py ' + p,
                           thorough_cmd='VERIF_TIER=thorough python3 bin/check.py ' + p,
                           evidence_file='evidence/%s.json' % p, technique=x['technique'], level='exploration',
                           level_note=('Search, not proof: the property held on every generated case of the run (counts, labels and samples in the evidence). '
                                       'Trusts the PHP 8.3 runtime, the reference model in lib/ and props/, and AddressSanitizer for memory errors. ' + x['note']).strip()))
    else:
        na.append(dict(property=p, reason='check not built yet'))
json.dump(cfg, open(os.path.join(V, 'props/config.json'), 'w'), indent=1)
m = dict(version=1, setup_cmd='python3 bin/check.py --setup', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
