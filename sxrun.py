#!/usr/bin/env python3
"""Check runner: rebuilds bitcode and native objects from /repo's working tree, explores the harness symbolically,
replays every counterexample natively, validates sampled paths natively, writes evidence."""
import sys, os, re, json, glob, hashlib, subprocess, shutil, time, fcntl, random, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SX_REPO', '/repo')
B = os.path.join(V, 'build')
NPROC = int(os.environ.get('SX_PROCS', 0)) or min(8, os.cpu_count() or 8)
DEFS = ['-D_GNU_SOURCE', '-DCONFIG_C3P_CBOR', '-DCONFIG_C3P_M2M_SUPPORT', '-DCONFIG_C3P_IMG_SUPPORT', '-DCONFIG_C3P_TRACE_ENABLED']
CL = ['clang++', '-m32', '-std=c++17', '-w', '-fno-rtti', '-fno-exceptions', '-Xclang', '-cl-single-precision-constant', '-O1', '-Xclang', '-disable-llvm-passes',
      '-fno-builtin', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-ffp-contract=off', '-fno-strict-aliasing', '-fwrapv',
      '-fno-delete-null-pointer-checks', '-fno-finite-loops', '-ftrivial-auto-var-init=pattern', '-fno-threadsafe-statics', '-U_FORTIFY_SOURCE', '-D__NO_CTYPE',
      '-fno-strict-return', '-g1', '-emit-llvm', '-c', '-ferror-limit=40'] + DEFS
GX = ['g++', '-m32', '-std=c++17', '-w', '-O0', '-g1', '-msse2', '-mfpmath=sse', '-ffp-contract=off', '-fsingle-precision-constant', '-fno-rtti', '-fno-exceptions',
      '-fno-omit-frame-pointer', '-fsanitize=address', '-ftrivial-auto-var-init=pattern', '-U_FORTIFY_SOURCE'] + DEFS
PASSES = 'internalize,globaldce,function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg),globaldce'

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
def sources():
    out = []
    for d, _, fs in sorted(os.walk(os.path.join(REPO, 'src'))):
        for f in sorted(fs):
            if f.endswith(('.cpp', '.h', '.c', '.hpp', '.inc')): out.append(os.path.relpath(os.path.join(d, f), REPO))
    return out
def tree_hash(extra=''):
    h = hashlib.sha256(extra.encode())
    for f in sources():
        h.update(f.encode()); h.update(open(os.path.join(REPO, f), 'rb').read())
    return h.hexdigest()[:20]
class Lock:
    def __init__(s, n): os.makedirs(B, exist_ok=True); s.f = open(os.path.join(B, n + '.lock'), 'w')
    def __enter__(s): fcntl.flock(s.f, fcntl.LOCK_EX)
    def __exit__(s, *a): fcntl.flock(s.f, fcntl.LOCK_UN); s.f.close()

def engine():
    with Lock('engine'):
        r = sh(['make', '-s', '-j4', '-C', os.path.join(V, 'engine')])
        if r.returncode: die('engine build failed:\n' + r.stdout[-3000:])
    return os.path.join(B, 'engine', 'sx')
def die(msg):
    print(msg); sys.exit(2)

DSUF = re.compile(r'(?<![\w.])(\d+\.\d*|\.\d+|\d+(?=[dD](?![\w])))(?:[dD])(?!\w)')
def rewrite(text):
    if re.search(r'\d[dD]\b', text):
        lines = text.split('\n')
        for i, l in enumerate(lines):
            code = l.split('//')[0]
            if re.search(r'\d[dD]\b', code) and '0x' not in code and '"' not in code and not l.lstrip().startswith('*'):
                lines[i] = DSUF.sub(lambda m: '((double)%sL)' % (m.group(1) if '.' in m.group(1) else m.group(1) + '.0'), code) + l[len(code):]
        text = '\n'.join(lines)
    return text
VLA = re.compile(r'(?P<ind>^|[;{}\s])(?P<decl>[\w:]+\s+(?P<n>\w+)\s*\[(?P<e>[^\]]+)\])\s*=\s*\{\s*0?\s*,?\s*\}\s*;')
def prune(d, keep=3):
    try:
        es = sorted((os.path.getmtime(os.path.join(d, x)), x) for x in os.listdir(d))
        for _, x in es[:-keep]: shutil.rmtree(os.path.join(d, x), ignore_errors=True)
    except OSError: pass
def decomdat(o):
    """A strong definition must win over a weak one, as in an ELF link (llvm-link keeps the first COMDAT group instead)."""
    r = sh(['llvm-dis', o, '-o', o + '.ll'])
    if r.returncode: die('INCONCLUSIVE: llvm-dis failed:\n' + r.stdout[-500:])
    t = open(o + '.ll', encoding='latin-1').read(); t = re.sub(r'^\$.* = comdat .*$', '', t, flags=re.M)
    t = '\n'.join(re.sub(r',? comdat(\(\$[^)]*\))?', '', l, count=1) if l[:1] in '@d' and ' comdat' in l else l for l in t.split('\n'))
    open(o + '.ll', 'w', encoding='latin-1').write(t); r = sh(['llvm-as', o + '.ll', '-o', o]); os.unlink(o + '.ll')
    if r.returncode: die('INCONCLUSIVE: llvm-as failed:\n' + r.stdout[-500:])
def bitcode():
    """/repo/src -> one .bc per source (cached on content)."""
    key = tree_hash(' '.join(CL) + 'decomdat'); d = os.path.join(B, 'bc', key)
    with Lock('bc'):
        if os.path.exists(os.path.join(d, 'done')): os.utime(d); return d
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        for f in sources():
            t = open(os.path.join(REPO, f), encoding='utf-8', errors='surrogateescape').read()
            p = os.path.join(d, f); os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, 'w', encoding='utf-8', errors='surrogateescape').write(rewrite(t))
        cpps = [f for f in sources() if f.endswith('.cpp')]
        os.makedirs(os.path.join(d, 'o'))
        def comp(f):
            o = os.path.join(d, 'o', f.replace('/', '__') + '.bc')
            for attempt in range(3):
                r = sh(CL + ['-Isrc', f, '-o', o], cwd=d)
                if r.returncode == 0: decomdat(o); return f, None
                bad = re.findall(r'^(\S+?):(\d+):\d+: error: variable-sized object may not be initialized', r.stdout, re.M)
                if not bad and 'ambiguous' in r.stdout:   # g++ only warns of these where a constant is a float by -fsingle-precision-constant
                    r = sh([x for i, x in enumerate(CL) if 'single-precision' not in x and 'single-precision' not in ''.join(CL[i + 1:i + 2])] + ['-Isrc', f, '-o', o], cwd=d)
                    if r.returncode == 0: decomdat(o); return f, None
                if not bad: return f, r.stdout[-1500:]
                for fn, ln in bad:
                    p = os.path.join(d, fn) if not os.path.isabs(fn) else fn
                    L = open(p, encoding='utf-8', errors='surrogateescape').read().split('\n'); i = int(ln) - 1
                    L[i] = VLA.sub(lambda m: '%s%s; __builtin_memset(%s, 0, sizeof(%s));' % (m.group('ind'), m.group('decl'), m.group('n'), m.group('n')), L[i])
                    open(p, 'w', encoding='utf-8', errors='surrogateescape').write('\n'.join(L))
            return f, r.stdout[-1500:]
        with ThreadPoolExecutor(NPROC) as ex: res = list(ex.map(comp, cpps))
        fails = {f: e for f, e in res if e}
        json.dump(fails, open(os.path.join(d, 'fails.json'), 'w'))
        open(os.path.join(d, 'done'), 'w').write('ok')
        prune(os.path.join(B, 'bc'))
    return d
def native():
    key = tree_hash(' '.join(GX)); d = os.path.join(B, 'nat', key)
    with Lock('nat'):
        if os.path.exists(os.path.join(d, 'done')): os.utime(d); return d
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        cpps = [f for f in sources() if f.endswith('.cpp')]
        def comp(f):
            r = sh(GX + ['-I' + os.path.join(REPO, 'src'), '-c', os.path.join(REPO, f), '-o', os.path.join(d, f.replace('/', '__') + '.o')])
            return f, (r.stdout[-500:] if r.returncode else None)
        with ThreadPoolExecutor(NPROC) as ex: res = list(ex.map(comp, cpps))
        json.dump({f: e for f, e in res if e}, open(os.path.join(d, 'fails.json'), 'w'))
        os_ = [os.path.join(d, f.replace('/', '__') + '.o') for f, e in res if not e]
        r = sh(['ar', 'rcs', os.path.join(d, 'libc3p.a')] + os_)
        for o in os_: os.unlink(o)
        open(os.path.join(d, 'done'), 'w').write('ok')
        prune(os.path.join(B, 'nat'))
    return d

def meta(path):
    m = {}
    for l in open(path):
        g = re.match(r'\s*//@\s*(\w+)\s*:\s*(.*?)\s*$', l)
        if g: m.setdefault(g.group(1), []).append(g.group(2))
    return m
def build_harness(h, tier, w, bcd):
    """harness -> optimised linked bitcode"""
    inc = ['-I' + os.path.join(V, 'rt'), '-I' + os.path.join(V, 'harness'), '-I' + os.path.join(bcd, 'src')]
    m = meta(h)
    d = ['-DTHOROUGH=%d' % (1 if tier == 'thorough' else 0)] + sum([x.split() for x in m.get('define', [])], [])
    outs = []
    def c(src, o, extra=()):
        r = sh((CL if src.endswith('.cpp') else ['clang'] + [x for x in CL[1:] if x not in ('-std=c++17', '-fno-rtti')]) + list(extra) + d + inc + [src, '-o', o])
        if r.returncode: die('INCONCLUSIVE: cannot compile %s:\n%s' % (src, r.stdout[-3000:]))
        decomdat(o); return o
    jobs = [(h, os.path.join(w, 'h.bc')), (os.path.join(V, 'rt/libc.c'), os.path.join(w, 'libc.bc'))]
    if 'noplat' not in m: jobs.append((os.path.join(V, 'rt/plat.cpp'), os.path.join(w, 'plat.bc')))
    with ThreadPoolExecutor(4) as ex: outs = list(ex.map(lambda j: c(*j), jobs))
    mods = sorted(glob.glob(os.path.join(bcd, 'o', '*.bc')))
    skip = sum([x.split() for x in m.get('skip', [])], [])
    mods = [x for x in mods if not any(k in os.path.basename(x) for k in skip)]
    lk = os.path.join(w, 'all.bc')
    r = sh(['llvm-link', '-o', lk] + outs + mods)
    if r.returncode: die('INCONCLUSIVE: llvm-link failed:\n' + r.stdout[-2000:])
    ob = os.path.join(w, 'opt.bc')
    r = sh(['opt', '-passes=' + PASSES, '-internalize-public-api-list=_Z7sx_mainv', lk, '-o', ob])
    if r.returncode: die('INCONCLUSIVE: opt failed:\n' + r.stdout[-2000:])
    return ob
def build_native(h, tier, w):
    nd = native(); m = meta(h)
    d = ['-DTHOROUGH=%d' % (1 if tier == 'thorough' else 0)] + sum([x.split() for x in m.get('define', [])], [])
    srcs = [h, os.path.join(V, 'rt/sxrt.cpp')] + ([] if 'noplat' in m else [os.path.join(V, 'rt/plat.cpp')])
    exe = os.path.join(w, 'native')
    r = sh(GX + d + ['-DSX_NATIVE', '-I' + os.path.join(V, 'rt'), '-I' + os.path.join(V, 'harness'), '-I' + os.path.join(REPO, 'src')] + srcs + [os.path.join(nd, 'libc3p.a'), '-o', exe])
    if r.returncode: die('INCONCLUSIVE: native harness build failed:\n' + r.stdout[-3000:])
    return exe
ASAN = 'detect_leaks=0:allocator_may_return_null=1:exitcode=99:abort_on_error=0:max_malloc_fill_size=1000000:detect_stack_use_after_return=0'
def run_native(exe, path, fill=0xbe, timeout=40):
    env = dict(os.environ, ASAN_OPTIONS=ASAN + ':malloc_fill_byte=%d' % fill)
    try: r = sh([exe, path], env=env, timeout=timeout)
    except subprocess.TimeoutExpired: return 'timeout', ''
    rc = r.returncode
    if rc == 0: return 'ok', r.stdout
    if rc == 77: return 'assume', r.stdout
    if rc == 88: return 'assert', r.stdout
    if rc == 99: return 'asan', r.stdout
    if rc == -14: return 'timeout', r.stdout
    return 'crash(%d)' % rc, r.stdout

def explore(h, tier, seed, w, sx, bcd, tlimit):
    bc = build_harness(h, tier, w, bcd)
    out = os.path.join(w, 'out'); shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    m = meta(h)
    cmd = [sx, bc, '-entry', '_Z7sx_mainv', '-out', out, '-seed', str(seed), '-procs', str(NPROC), '-time', str(tlimit), '-grace', os.environ.get('SX_GRACE', '45')]
    if 'maxinst' in m: cmd += ['-maxinst', m['maxinst'][0]]
    if 'qtimeout' in m: cmd += ['-qtimeout', m['qtimeout'][0]]
    t = time.time(); r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=tlimit + 200)
    res = {'engine_s': time.time() - t, 'stderr': r.stderr[-2000:], 'rc': r.returncode}
    if os.environ.get('SX_SHOW'): sys.stderr.write(r.stderr)
    if r.returncode: die('INCONCLUSIVE: engine error on %s (rc %d): %s' % (os.path.basename(h), r.returncode, r.stderr[-2000:]))
    agg = {}
    for f in glob.glob(out + '/*.json'):
        j = json.load(open(f))
        for k, v in j.items():
            if isinstance(v, (int, float)): agg[k] = max(agg.get(k, 0), v) if k.startswith('max_') or k in ('q_max', 'exprs') else agg.get(k, 0) + v
            elif k == 'functions':
                a = agg.setdefault(k, {})
                for n, (c, s, fl) in v.items(): o = a.get(n, [0, 0, fl]); a[n] = [o[0] + c, o[1] | s, fl]
            elif isinstance(v, dict):
                a = agg.setdefault(k, {})
                for n, c in v.items(): a[n] = a.get(n, 0) + c
            elif isinstance(v, list): agg.setdefault(k, []).extend(v)
    agg['workers'] = len(glob.glob(out + '/*.json'))
    res.update(agg); return res
def main():
    pid = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2: tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1); t0 = time.time()
    hs = sorted(glob.glob(os.path.join(V, 'harness', pid + '.cpp')) + glob.glob(os.path.join(V, 'harness', pid + '_*.cpp')))
    if os.environ.get('SX_ONLY'): hs = [h for h in hs if os.environ['SX_ONLY'] in h]
    if not hs: die('no harness for ' + pid)
    sx = engine()
    with ThreadPoolExecutor(1) as bg:
        bcd = bitcode()
        fb = bg.submit(native) if os.environ.get('SX_NONATIVE') is None else None
        tot = None; viol = []; problems = []; validated = 0; mism = []; samples = []; bounds = []; assumptions = []; outside = []; known_seen = {}
        w0 = tempfile.mkdtemp(prefix='%s-' % pid, dir=B)
        try:
            R = []
            for h in hs:
                name = os.path.basename(h)[:-4]; m = meta(h); w = os.path.join(w0, name); os.makedirs(w)
                tl = float(m.get('time', ['500'])[0]) if tier != 'thorough' else float(m.get('ttime', ['780'])[0])
                tl = float(os.environ.get('SX_TIME', tl))
                if tier != 'thorough': tl = min(tl, max(60, 720 - (time.time() - t0)))
                r = explore(h, tier, seed, w, sx, bcd, tl); r['harness'] = name; R.append((h, w, m, r))
                bounds += m.get('bounds', []); assumptions += m.get('assume', []); outside += m.get('outside', [])
                for l in sum([x.split() for x in m.get('reach', [])], []):
                    if not r.get('reach', {}).get(l) and not r.get('violations'): problems.append('%s: witness "%s" never reached (vacuous)' % (name, l))
                if r.get('incomplete'): problems.append('%s: exploration incomplete: %s' % (name, json.dumps(r.get('incomplete_why'))[:600]))
                if not r.get('asserts'): problems.append(name + ': no assertion evaluated')
            if fb: fb.result()
            for h, w, m, r in R:
                name = r['harness']; exe = build_native(h, tier, w) if fb else None
                # 1. counterexamples
                os.makedirs(os.path.join(V, 'evidence', 'replay'), exist_ok=True)
                seen = {}
                for v in r.get('violations', []):
                    k = (v['kind'], v['label'] if v['kind'] == 'assert' else v['where'], v['tags'])
                    if len(seen.setdefault(k, [])) < 3: seen[k].append(v)
                for k, vs in list(seen.items())[:12]:
                    conf = None
                    for v in vs:
                        n = len(viol) + len(known_seen) + len(problems)
                        p = os.path.join(V, 'evidence', 'replay', '%s-%s-%d.txt' % (pid, name, n))
                        open(p, 'w').write('# property %s harness %s tier %s\n# %s: %s\n# %s\n' % (pid, name, tier, v['kind'], v['label'], v['stack'].strip().replace('\n', '\n#   '))); 
                        open(p, 'a').write(v['input'] + '\n')
                        if not exe: conf = ('not replayed', '', p, v); break
                        for fill in (0xbe, 0, 0xff, 1):
                            st, o = run_native(exe, p, fill)
                            if st not in ('ok', 'assume'): conf = (st, o, p, v); break
                        if conf: break
                    if conf:
                        if k[2]: known_seen.setdefault(k[2], []).append(conf)
                        else: viol.append(conf)
                    else: problems.append('%s: counterexample not reproduced natively: %s %s %s input=%s (%s)' % (name, vs[0]['kind'], vs[0]['label'], vs[0]['where'], vs[0]['input'][:200], st))
                # 2. sampled paths, validated against the real code
                tr = r.get('traces', []); random.Random(seed).shuffle(tr); tr = tr[:60 if tier != 'thorough' else 300]
                if exe and tr:
                    tf = os.path.join(w, 'tr'); open(tf, 'w').write(''.join(t['in'] + '\n' for t in tr))
                    env = dict(os.environ, ASAN_OPTIONS=ASAN + ':malloc_fill_byte=190')
                    # split over processes
                    parts = [list(range(i, len(tr), NPROC)) for i in range(NPROC)]
                    def go(i):
                        if not parts[i]: return
                        f = tf + '.p%d' % i; open(f, 'w').write(''.join(tr[j]['in'] + '\n' for j in parts[i]))
                        sh([exe, '-batch', f, f + '.o'], env=env, timeout=600)
                    with ThreadPoolExecutor(NPROC) as ex: list(ex.map(go, range(NPROC)))
                    for i in range(NPROC):
                        for q, j in enumerate(parts[i]):
                            try: L = open(tf + '.p%d.o.%d' % (i, q)).read().split('\n')
                            except OSError: L = ['rc missing']
                            L = [x for x in L if x]; rc = L[-1]; notes = [int(x) for x in L[:-1] if x.isdigit()]
                            if rc == 'rc 0' and notes == tr[j]['notes']: validated += 1
                            else: mism.append((name, tr[j]['in'], rc, notes[:20], tr[j]['notes'][:20]))
                if tr: samples.append({'harness': name, 'path_input_hex': tr[0]['in'], 'observed': tr[0]['notes'][:32]})
        finally:
            if not os.environ.get('SX_KEEP'): shutil.rmtree(w0, ignore_errors=True)
    # A mismatch between engine and real code on a passing path is itself a failed obligation when the native run asserts/crashes
    for name, inp, rc, a, b in mism:
        if rc in ('rc 88', 'rc 99'):
            p = os.path.join(V, 'evidence', 'replay', '%s-%s-native.txt' % (pid, name)); open(p, 'w').write(inp + '\n')
            viol.append((rc, '', p, {'kind': 'native', 'label': 'the real code fails on a sampled path', 'where': name}))
        else: problems.append('%s: engine/native trace mismatch %s input=%s native=%s engine=%s' % (name, rc, inp[:120], a, b))
    S = lambda k: sum(r.get(k, 0) or 0 for _, _, _, r in R)
    fns = {}
    for _, _, _, r in R:
        for n, (c, s, fl) in r.get('functions', {}).items():
            if '/harness/' in fl or '/rt/' in fl: continue
            o = fns.get(n, [0, 0]); fns[n] = [o[0] + c, o[1] | s]
    names = sorted(fns); dem = []
    if names:
        dem = sh(['c++filt'], input='\n'.join(names)).stdout.strip().split('\n')
    enc = [d + ('' if fns[n][1] else ' [concrete args only]') for n, d in zip(names, dem)]
    reach = {}; 
    for _, _, _, r in R:
        for k, v in r.get('reach', {}).items(): reach[k] = reach.get(k, 0) + v
    ac = {}
    for _, _, _, r in R:
        for k, v in r.get('assert_counts', {}).items(): ac[k] = ac.get(k, 0) + v
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {'states': S('states'), 'transitions': S('blocks'), 'traces_validated_against_impl': validated, 'samples': samples or ['no completed path'],
                       'paths_completed': S('completed'), 'paths_cut_by_assumption': S('assumed_away'), 'instructions_interpreted': S('insts'), 'forks': S('forks'), 'max_fork_depth': max(r.get('max_fork_depth', 0) for _, _, _, r in R),
                       'assertions_evaluated': S('asserts'), 'assertions_symbolic_discharged_by_z3': S('asserts_symbolic'), 'assertion_labels': ac, 'reachability_witnesses': reach,
                       'solver': {'z3_queries': S('queries'), 'sat': S('q_sat'), 'unsat': S('q_unsat'), 'unknown': S('q_unknown'), 'cache_hits': S('q_cache'), 'byte_domain_decisions': S('dom_decisions'), 'solver_time_s': round(S('q_sec'), 3), 'max_query_s': round(max(r.get('q_max', 0) for _, _, _, r in R), 3)},
                       'functions_encoded': enc, 'functions_encoded_count': len(enc), 'harnesses': [r['harness'] for _, _, _, r in R],
                       'bounds': bounds, 'outside_the_claim': outside, 'exhaustive_within_bounds': not problems, 'problems': problems[:20]},
          'assumptions': assumptions + ['32-bit x86 build flags of the unit-test Makefile; clang -O1-pass-free IR after sroa/instcombine/simplifycfg is taken as the meaning of the source', 'malloc/new do not fail below 128 MB', 'uninitialised heap bytes are arbitrary; uninitialised locals hold 0xAA', 'integer wrap-around on signed overflow, x86 shift masking'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s [%s]: %d paths, %d states, %d insts, %d asserts (%d symbolic), %d z3 queries (%.1fs), %d traces validated, %d functions, %.1fs' % (pid, tier, S('completed'), S('states'), S('insts'), S('asserts'), S('asserts_symbolic'), S('queries'), S('q_sec'), validated, len(enc), time.time() - t0))
    if os.environ.get('SX_SHOW'):
        for _, _, _, r in R: print(r['harness'], 'engine %.1fs' % r['engine_s'], 'reach', r.get('reach'), 'asserts', r.get('assert_counts'))
    kf = []
    kp = os.path.join(V, 'known_findings.json')
    if os.path.exists(kp): kf = [f for f in json.load(open(kp)).get('findings', []) if f['property'] == pid]
    listed = {f['tag']: f for f in kf}
    for tag, cs in known_seen.items():
        if all(t in listed for t in tag.split(',')):
            for t in tag.split(','):
                if not listed[t].get('_p'): print('KNOWN-FINDING: property=%s %s' % (pid, listed[t]['what'])); listed[t]['_p'] = 1
        else: viol += cs
    for st, o, p, v in viol[:10]:
        print('  %s: %s [%s] at %s' % (v['kind'], v['label'], st, v['where']))
    if viol:
        print('VIOLATION property=%s replay=%s' % (pid, viol[0][2])); sys.exit(1)
    if problems:
        for p in problems[:10]: print('INCONCLUSIVE: ' + p)
        sys.exit(2)
    sys.exit(0)
if __name__ == '__main__': main()
