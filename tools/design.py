#!/usr/bin/env python3
"""Writes the per-property part of DESIGN.md from props_table.py, the //@ lines of the harnesses, seeded/*/meta.json and evidence (costs)."""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import props
A, Z = '<!-- generated by tools/design.py -->', '<!-- end -->'
bugs = {}
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m)); bugs.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(m)), d))
cost = json.load(open(V + '/tools/cost.json')) if os.path.exists(V + '/tools/cost.json') else {}
for e in glob.glob(V + '/evidence/C??.json'):
    d = json.load(open(e))
    if not d.get('violations'): cost.setdefault(d['property'], {})[d['tier']] = [round(d['wall_s']), d['coverage']['states']]
json.dump(cost, open(V + '/tools/cost.json', 'w'), indent=0, sort_keys=True)
out = []
for p in sorted(props.P, key=lambda p: p['id']):
    m = props.meta(p['id']); hs = sorted(os.path.basename(h) for h in glob.glob(V + '/harness/%s*.cpp' % p['id']))
    out += ['### %s %s' % (p['id'], p['title']), '', p['statement'], '',
            '* Harness: ' + ', '.join('`%s`' % h for h in hs) + '; code: ' + ', '.join('`%s`' % f for f in p['anchors']['files']),
            '* Why tests cannot: ' + p['why_tests_cant']]
    for b in m.get('bounds', []): out += ['* Bounds: ' + b]
    for b in m.get('assume', []): out += ['* Assumes: ' + b]
    for b in m.get('outside', []): out += ['* Outside: ' + b]
    c = cost.get(p['id'], {})
    if c: out += ['* Cost: ' + ', '.join('%s %d s, %d paths' % (t, *c[t]) for t in ('quick', 'thorough') if t in c)]
    for n, d in bugs.get(p['id'], []): out += ['* Planted bug `%s`: %s, needing %s; %s' % (n, d['what_it_breaks'], d['needs'], d.get('caught', 'caught by this check'))]
    out += ['']
s = open(V + '/DESIGN.md').read(); i, j = s.index(A), s.index(Z)
open(V + '/DESIGN.md', 'w').write(s[:i] + A + '\n\n' + '\n'.join(out) + '\n' + s[j:])
