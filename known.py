#!/usr/bin/env python3
"""Rewrites the "fixed" list of known_findings.json from the fix: commits of /repo and the map below (run by hand; no check calls it)."""
import json, subprocess, os
V = os.path.dirname(os.path.abspath(__file__))
MAP = [l.split(' ', 1) for l in open(os.path.join(V, 'fixed.map')).read().splitlines() if l.strip()]
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
k = json.load(open(os.path.join(V, 'known_findings.json'))); out = []; miss = []
for l in log:
    h, _, s = l.partition(' ')
    if not s.startswith('fix:'): continue
    s = s[4:].strip(); pid = next((p for p, key in MAP if key in s), None)
    if pid: out.append('fixed: property=%s %s %s' % (pid, h, s))
    else: miss.append(l)
k['fixed'] = out; json.dump(k, open(os.path.join(V, 'known_findings.json'), 'w'), indent=1)
print(len(out), 'recorded; unmapped:', miss)
