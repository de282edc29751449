#!/usr/bin/env python3
"""Makes and confirms planted bugs. usage: seed.py SPEC.py [ID...]   SPEC calls bug(id, property, [(file, old, new)...], demo_cpp, needs, breaks)
Confirms in a scratch copy: patch applies, builds, stable tests pass, demo passes without and fails with it; then runs the check."""
import sys, os, json, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); T = os.path.join(V, 'tools')
def sh(c, cwd=None, env=None): return subprocess.run(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
BUGS = []
def bug(id, prop, edits, demo, needs, breaks): BUGS.append((id, prop, edits, demo, needs, breaks))
exec(open(sys.argv[1]).read())
only = sys.argv[2:]
W = '/tmp/seedwork'
for id, prop, edits, demo, needs, breaks in BUGS:
    if only and id not in only: continue
    shutil.rmtree(W, ignore_errors=True); shutil.copytree('/repo', W, symlinks=True)
    sh('git checkout -q -- . ; rm -r /tmp/seedwork/_build', cwd=W)
    D = os.path.join(V, 'seeded', id); os.makedirs(D, exist_ok=True)
    for f in ('demo_plat.cpp', 'demo.h', 'demo.sh'): shutil.copy(os.path.join(T, f), D)
    if 'LEAKS' in demo.split('\n')[0]:
        s = open(D + '/demo.sh').read().replace('LEAKS:-0', 'LEAKS:-1'); open(D + '/demo.sh', 'w').write(s)
    open(D + '/demo.cpp', 'w').write('#include "demo.h"\n' + demo.lstrip('\n'))
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(D + '/meta.json', 'w'), indent=1)
    r0 = sh('bash %s/demo.sh' % D, cwd=W)
    ok = True
    for f, a, b in edits:
        p = os.path.join(W, f); s = open(p, encoding='utf-8', errors='surrogateescape').read()
        if s.count(a) != 1: print(id, 'edit matches', s.count(a), repr(a)); ok = False; break
        open(p, 'w', encoding='utf-8', errors='surrogateescape').write(s.replace(a, b))
    if not ok: shutil.rmtree(D); continue
    open(D + '/patch.diff', 'w', encoding='utf-8', errors='surrogateescape').write(subprocess.run(['git', 'diff'], cwd=W, stdout=subprocess.PIPE, text=True, errors='surrogateescape').stdout)
    # the lines it changes are original ones
    bl = [l for l in sh('git blame -s 193f970..HEAD -- %s' % edits[0][0], cwd=W).stdout.splitlines()]
    r1 = sh('bash %s/demo.sh' % D, cwd=W)
    # stable tests, against the scratch copy
    os.makedirs('/tmp/seedtest', exist_ok=True)
    tst = sh('sed s#/repo#%s#g /opt/vp/c3p.mk > /tmp/seedtest/c3p.mk; make -C %s/extras/unit_tests -f /tmp/seedtest/c3p.mk --no-print-directory -j8 B=%s/_build CXX=/usr/bin/g++ everything >/tmp/seedtest/b.log 2>&1 || echo BUILDFAIL; make -C %s/extras/unit_tests -f /tmp/seedtest/c3p.mk --no-print-directory -j8 B=%s/_build CXX=/usr/bin/g++ tests >>/tmp/seedtest/b.log 2>&1; rm -f %s/_build/results.txt; sed s#/repo#%s#g /opt/vp/run_tests.py > /tmp/seedtest/run_tests.py; python3 /tmp/seedtest/run_tests.py %s/_build/results.txt; sed s#/repo#%s#g /opt/vp/results.py > /tmp/seedtest/results.py; python3 /tmp/seedtest/results.py /tmp/seedtest/o.json lines:%s/_build/results.txt | tail -1' % ((W,) * 10)).stdout.strip().splitlines()
    base = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', json.load(open('/opt/vp/BASELINE.json')).get('passed', [])))
    try: got = set(json.load(open('/tmp/seedtest/o.json'))['passed'])
    except Exception: got = set()
    miss = base - got
    ck = sh('python3 %s/sxrun.py %s quick' % (V, prop), env=dict(os.environ, SX_REPO=W))
    v = [l for l in ck.stdout.splitlines() if 'VIOLATION' in l]
    print('%s [%s] demo clean=%d patched=%d tests missing=%d%s check rc=%d %s' % (id, prop, r0.returncode, r1.returncode, len(miss), ' (BUILDFAIL)' if any('BUILDFAIL' in x for x in tst) else '', ck.returncode, v[0][:160] if v else 'NOT CAUGHT ' + ck.stdout[-300:]))
    if r0.returncode: print(r0.stdout[-800:])
    if not r1.returncode: print('demo output with patch:', r1.stdout[-300:])
    if miss: print(sorted(miss)[:5], tst[-3:])
shutil.rmtree(W, ignore_errors=True)
