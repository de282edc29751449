#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (one entry per property)."""
import json, os, glob
V = os.path.dirname(os.path.abspath(__file__))
P = []
NA = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})
I, H, C, F, S = 'inputs', 'histories', 'configurations', 'fault_sequences', 'schedules'
exec(open(os.path.join(V, 'props_table.py')).read())
TECH = 'symbolic execution of the compiled sources (LLVM IR regenerated from /repo) with Z3; counterexamples replayed on an ASan build'
def meta(pid):
    r = {}
    for h in sorted(glob.glob(os.path.join(V, 'harness', pid + '.cpp')) + glob.glob(os.path.join(V, 'harness', pid + '_*.cpp'))):
        for l in open(h):
            if l.startswith('//@ '):
                k, _, v = l[4:].partition(':'); r.setdefault(k.strip(), []).append(v.strip())
    return r
def main():
    na = dict(NA); checks = []
    for p in P:
        m = meta(p['id'])
        if p['id'] in na: continue
        if not m: print('no harness for', p['id']); continue
        note = 'Every value within the bounds is decided by the solver: ' + '; '.join(m.get('bounds', ['see the harness']))
        if m.get('outside'): note += '. Outside: ' + '; '.join(m['outside'])
        checks.append({'property': p['id'], 'quick_cmd': 'python3 sxrun.py %s quick' % p['id'], 'thorough_cmd': 'python3 sxrun.py %s thorough' % p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'], 'technique': TECH, 'level': 'model_checking', 'level_note': note + '.'})
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            if p['id'] in na or meta(p['id']): f.write(json.dumps(p) + '\n')
    json.dump({'version': 1, 'setup_cmd': 'make -s -C engine', 'checks': checks,
               'not_applicable': [{'property': k, 'reason': v} for k, v in NA]}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks,', len(na), 'not applicable')
if __name__ == '__main__': main()
