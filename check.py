#!/usr/bin/env python3
"""check.py ID            decide property ID on /repo's working tree (tier from VERIF_TIER, default quick)
   check.py --replay F    re-run a recorded counterexample against the current tree
   check.py --job NAME    run one job and print its raw result (development)
Exit 0: held on everything explored; 1: VIOLATION (reproduced natively); 2: error of the check."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time, fcntl
D = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('VERIF_REPO', '/repo'); B = D + '/build'
sys.path.insert(0, D + '/checks')
TIER = os.environ.get('VERIF_TIER', 'quick'); SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NCPU = os.cpu_count() or 8
BASE = ['-std=c++20', '-DNDEBUG', '-I' + REPO + '/include', '-I' + D + '/rt', '-I' + D + '/checks', '-DPERSISTENCE_BOOST_DESCRIBE', '-w']
ENC = ['-O1', '-U__SSE2__', '-U__SSE4_2__', '-fno-vectorize', '-fno-slp-vectorize', '-gline-tables-only', '-fno-builtin-printf']
DEADLINE = time.time() + (float(os.environ.get('VERIF_BUDGET', '780')) if TIER == 'quick' else float(os.environ.get('VERIF_BUDGET', '7200')))

class Sem:  # weighted semaphore over cores
    def __init__(s, n): s.n = n; s.c = threading.Condition()
    def take(s, k):
        with s.c:
            while s.n < k: s.c.wait()
            s.n -= k
    def give(s, k):
        with s.c: s.n += k; s.c.notify_all()
SEM = Sem(NCPU)

def sh(cmd, timeout=None, **kw):
    try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, errors='replace', **kw); return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e: return 124, '', 'timeout'

_cl = threading.Lock(); _cached = {}
def once(key, fn):  # compute fn() once per key, across threads
    with _cl:
        if key not in _cached: _cached[key] = [threading.Lock(), None]
        ent = _cached[key]
    with ent[0]:
        if ent[1] is None:
            ent[1] = (fn(),)
        return ent[1][0]

def bitcode(W, j):
    """compile the harness (with /repo's headers) to bitcode and link the runtime models"""
    key = 'bc_' + ('s_' if j.get('shadow') else '') + j['file'] + '_' + '_'.join(j['defs']); o = W + '/' + re.sub(r'\W', '_', key)
    def go():
        SEM.take(1)
        try:
            inc = (['-isystem', shadow(W)] if j.get('shadow') else [])
            rc, so, se = sh(['clang++'] + ENC + inc + BASE + ['-D' + d for d in j['defs']] + ['-emit-llvm', '-c', D + '/checks/' + j['file'], '-o', o + '.h.bc'], 300)
            if rc: return (None, se)
            rc, so, se = sh(['llvm-link-18', o + '.h.bc', B + '/rt.bc', '-o', o + '.bc'], 60)
            if rc: return (None, se)
            return (o + '.bc', '')
        finally: SEM.give(1)
    return once(W + key + str(bool(j.get('shadow'))), go)

def shadow(W):
    def go():
        d = W + '/shadow'; sys.path.insert(0, D + '/rt'); import mkshadow; mkshadow.make(d); return d
    return once(W + 'shadow', go)

def native(W, j, mode):
    """compile the same harness natively with the project's compiler; mode: plain | asan"""
    key = mode + '_' + j['file'] + '_' + '_'.join(j['defs']); o = W + '/' + re.sub(r'\W', '_', key)
    def go():
        SEM.take(1)
        try:
            fl = ['-O1', '-g1'] if mode == 'plain' else ['-O1', '-g1', '-U__SSE2__', '-U__SSE4_2__', '-fsanitize=address,undefined', '-fno-sanitize=alignment,null', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-DSYM_NO_COUNT', '-D_GLIBCXX_SANITIZE_VECTOR=1']
            rc, so, se = sh(['g++'] + fl + BASE + ['-D' + d for d in j['defs']] + ['-rdynamic', D + '/checks/' + j['file'], D + '/rt/native.cpp', '-o', o, '-ldl'], 600)
            return (o if rc == 0 else None, se)
        finally: SEM.give(1)
    return once(W + key, go)

def replay(W, j, hexin):
    """run one concrete input natively; returns (reproduced, how)"""
    f = W + '/in_%d.hex' % abs(hash((j['name'], hexin))); open(f, 'w').write(hexin + '\n')
    exe, se = native(W, j, 'plain')
    if not exe: return False, 'native build failed: ' + se[-500:]
    lim = ['bash', '-c', 'ulimit -v 8000000; ulimit -c 0; exec "$@"', 'x']
    rc, so, se = sh(lim + [exe, j['entry'], f], 30)
    if rc == 77: return False, 'assumption not satisfied natively'
    if rc == 42: return True, 'native run: ' + se.strip()
    if rc != 0: return True, 'native run ends with status %d: %s' % (rc, se.strip()[-400:])
    exe, se = native(W, j, 'asan')
    if exe:
        rc, so, se = sh([exe, j['entry'], f], 60, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=%d:detect_stack_use_after_return=1' % (1 if j.get('leaks') else 0), UBSAN_OPTIONS='print_stacktrace=1'))
        if rc not in (0, 77): return True, 'sanitizer run (status %d): %s' % (rc, '\n'.join(l for l in se.splitlines() if 'ERROR' in l or 'runtime error' in l or 'FAILED' in l or l.strip().startswith('#'))[:2000])
    exe, _ = native(W, j, 'plain')
    rc, so, se = sh(['valgrind', '-q', '--error-exitcode=99', exe, j['entry'], f], 120)
    if rc == 99: return True, 'valgrind: ' + se[:1500]
    return False, 'not reproduced natively'

def run_job(W, j):
    r = dict(job=j['name'], file=j['file'], entry=j['entry'], bounds=j['bounds'])
    t0 = time.time()
    bc, err = bitcode(W, j)
    if not bc: r['error'] = 'compile failed: ' + err[-1500:]; return r
    w = min(j.get('cores', 1), NCPU); out = W + '/' + j['name'] + '.json'
    SEM.take(w)
    try:
        tl = max(10, min(j.get('time', 600), DEADLINE - time.time()))
        cmd = [B + '/jsym', bc, '--entry', j['entry'], '--out', out, '--jobs', str(w), '--time', '%d' % tl, '--seed', str(SEED), '--samples', '24', '--max-viol', str(j.get('max_viol', 4)), '--max-inst', str(j.get('max_inst', 60000000))]
        if j.get('rlimit'): cmd += ['--rlimit', str(j['rlimit'])]
        rc, so, se = sh(cmd, tl + 120)
    finally: SEM.give(w)
    if rc != 0 or not os.path.exists(out): r['error'] = 'engine failed (%d): %s' % (rc, se[-800:]); return r
    r['res'] = json.load(open(out)); r['job_s'] = round(time.time() - t0, 2)
    miss = [l for l in j.get('reach', []) if l not in r['res']['reach']]
    if miss and not r['res']['violations']: r['vacuous'] = miss
    # translation validation: replay sampled paths natively, compare the observation traces
    if not r['res']['violations'] and r['res']['samples']:
        sm = r['res']['samples']; sm = sm[::max(1, len(sm) // 40)][:40]
        exe, err = native(W, j, 'plain')
        if exe:
            f = W + '/' + j['name'] + '.batch'; open(f, 'w').write(''.join(x.split('|', 1)[0] + '\n' for x in sm))
            rc, so, se = sh([exe, '--batch', j['entry'], f], 120)
            lines = so.split('\n')[:len(sm)]; bad = []; ok = 0
            for x, l in zip(sm, lines):
                h, tr = x.split('|', 1)
                if l == '0|' + tr: ok += 1
                else: bad.append((h, tr, l))
            r['validated'] = ok; r['mismatch'] = bad
        else: r['native_error'] = err[-800:]
    return r

def known():
    try: return json.load(open(D + '/known_findings.json'))
    except FileNotFoundError: return []

def main(pid):
    t0 = time.time(); sh(['bash', D + '/setup.sh'], 900)
    if not os.path.exists(B + '/jsym'): print('engine build failed'); return 2
    import jobs
    js = [dict(j) for j in jobs.JOBS if j['property'] == pid and (TIER != 'quick' or j.get('tier', 'quick') == 'quick')]
    if not js: print('no jobs for ' + pid); return 2
    W = tempfile.mkdtemp(prefix='w_%s_' % pid, dir=B); res = [None] * len(js)
    try:
        order = sorted(range(len(js)), key=lambda i: -js[i].get('cost', 1))
        q = list(order); ql = threading.Lock()
        def worker():
            while True:
                with ql:
                    if not q: return
                    i = q.pop(0)
                try: res[i] = run_job(W, js[i])
                except Exception as e: res[i] = dict(job=js[i]['name'], error='driver: %r' % e)
        ts = [threading.Thread(target=worker) for _ in range(NCPU + 4)]
        [t.start() for t in ts]; [t.join() for t in ts]
        return report(pid, js, res, W, t0)
    finally: shutil.rmtree(W, ignore_errors=True)

def report(pid, js, res, W, t0):
    kf = [k for k in known() if k.get('property') == pid and k.get('status') == 'known']
    viol = []; errs = []; inc = []; kfl = set(); skipped = 0
    for j, r in zip(js, res):
        if r.get('error'): errs.append((j['name'], r['error'])); continue
        if r.get('vacuous'): errs.append((j['name'], 'vacuous: never reached ' + ', '.join(r['vacuous'])))
        for bad in r.get('mismatch', []) or []: errs.append((j['name'], 'encoding disagrees with native execution on input %s: engine trace %s, native %s' % bad))
        for v in r['res']['violations']:
            k = [x for x in kf if x.get('job') == j['name'] and x.get('kind') == v['kind'] and x.get('msg') == v['msg']]
            if k: kfl.add('%s [%s]' % (k[0]['what'], v['inputs'])); continue
            if len(viol) >= 4: skipped += 1; continue  # enough confirmed violations to report
            ok, how = replay(W, j, v['inputs'])
            if ok: viol.append((j, v, how))
            else: errs.append((j['name'], 'counterexample not reproduced natively (%s): %s %s inputs=%s\n%s' % (how, v['kind'], v['msg'], v['inputs'], v['loc'])))
        if not r['res']['complete'] and not r['res']['violations']:
            inc.append((j['name'], '; '.join(r['res']['errors'])[:600] or 'incomplete'))
    os.makedirs(D + '/evidence', exist_ok=True); os.makedirs(D + '/replays', exist_ok=True)
    for l in sorted(kfl): print('KNOWN-FINDING: property=%s %s' % (pid, l))
    for n, (j, v, how) in enumerate(viol):
        p = D + '/replays/%s_%s_%d.txt' % (pid, j['name'], n)
        with open(p, 'w') as f:
            f.write('# property %s job %s (%s entry %s defs %s)\n# %s: %s\n# reproduced: %s\n# symbolic inputs: %s\n' % (pid, j['name'], j['file'], j['entry'], ' '.join(j['defs']), v['kind'], v['msg'], how.replace('\n', '\n# '), v['names']))
            f.write(''.join('# ' + l + '\n' for l in v['loc'].splitlines())); f.write(v['inputs'] + '\n')
        print('  %s: %s: %s (%s)' % (j['name'], v['kind'], v['msg'], how.splitlines()[0][:200] if how else ''))
        print('VIOLATION property=%s replay=%s' % (pid, p))
    if skipped: print('  %d further counterexamples not replayed' % skipped)
    for n, e in inc: print('INCOMPLETE job=%s %s' % (n, e))
    for n, e in errs: print('ERROR job=%s %s' % (n, e))
    R = [r['res'] for r in res if r and 'res' in r]
    S = lambda k: sum(x[k] for x in R)
    fn = set()
    for x in R: fn.update(f for f in x['functions'] if 'persistence::' in f)
    short = sorted({re.sub(r'<.*', '', re.sub(r'^(.*? )?(?=persistence::)', '', f)).split('(')[0] for f in fn})
    smp = []
    for j, r in zip(js, res):
        if r and 'res' in r:
            for x in r['res']['samples'][:2]:
                smp.append('%s: input bytes %s -> trace %s' % (j['name'], x.split('|')[0][:160], x.split('|', 1)[1][:160]))
    ev = dict(property=pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level='model_checking', wall_s=round(time.time() - t0, 2), violations=len(viol),
      coverage=dict(states=S('paths') + S('killed'), transitions=S('insts'), traces_validated_against_impl=sum(r.get('validated', 0) for r in res if r), samples=smp[:40],
        exhaustive=bool(not inc and not errs), explanation='states = complete symbolic paths through the compiled code (each stands for every input satisfying its path condition); transitions = LLVM instructions executed symbolically; traces_validated = sampled paths replayed on a native g++ build of the same harness with identical observation traces',
        obligations_checked=S('asserts'), obligations_with_symbolic_condition=S('asserts_symbolic'), decided_by_solver_query=S('asserts_by_solver'),
        solver=dict(queries=S('queries'), sat=S('sat'), unsat=S('unsat'), unknown=S('unknown'), cache_hits=S('cache_hits'), domain_decisions=S('domain_decisions'), audited_decisions=S('audits'), solver_s=round(S('solver_s'), 2), max_query_s=max([x['max_query_s'] for x in R] or [0])),
        functions_encoded_count=len(fn), functions_encoded=short[:200],
        jobs=[dict(job=j['name'], bounds=j['bounds'], paths=r['res']['paths'], pruned=r['res']['killed'], obligations=r['res']['asserts'], queries=r['res']['queries'], solver_s=r['res']['solver_s'], wall_s=r.get('job_s'), complete=r['res']['complete'], reach=r['res']['reach'], validated=r.get('validated', 0)) if r and 'res' in r else dict(job=j['name'], bounds=j['bounds'], error=(r or {}).get('error', '?')[:300]) for j, r in zip(js, res)],
        incomplete=[list(x) for x in inc], errors=[list(x) for x in errs], known_findings=sorted(kfl)),
      assumptions=['bounds as listed per job; inputs outside them are not covered', 'x86-64, clang 18 -O1 IR of the current /repo headers with installed RapidJSON and libstdc++ headers', 'runtime models in rt/rt.cpp (exceptions, red-black tree linkage, hash, timegm/gmtime) match libstdc++/glibc', 'allocation does not fail', 'Z3 is correct; counterexamples are replayed natively before being reported'])
    json.dump(ev, open(D + '/evidence/%s.json' % pid, 'w'), indent=1)
    c = ev['coverage']
    print('%s: %d jobs, %d paths, %d obligations, %d queries (%.1fs solver), %d traces validated, %.1fs' % (pid, len(js), c['states'], c['obligations_checked'], c['solver']['queries'], c['solver']['solver_s'], c['traces_validated_against_impl'], ev['wall_s']))
    if viol: return 1
    return 2 if errs else 0

def dev(name):
    import jobs; sh(['bash', D + '/setup.sh'], 900)
    W = tempfile.mkdtemp(prefix='w_dev_', dir=B); rc = 0
    try:
        from concurrent.futures import ThreadPoolExecutor
        js = [j for j in jobs.JOBS if re.fullmatch(name, j['name'])]
        with ThreadPoolExecutor(12) as ex:
            for j, r in zip(js, ex.map(lambda j: run_job(W, j), js)):
                if 'res' in r:
                    x = r['res']; print(j['name'], {k: x[k] for k in ('complete', 'paths', 'killed', 'insts', 'asserts', 'asserts_by_solver', 'queries', 'unknown', 'solver_s', 'max_query_s', 'wall_s', 'reach', 'errors')}, 'validated', r.get('validated'), 'job_s', r['job_s'])
                    for m in r.get('mismatch', []) or []: print('  MISMATCH', m)
                    if r.get('native_error'): print(r['native_error'])
                    if r.get('vacuous'): print('  VACUOUS', r['vacuous'])
                    for v in x['violations']:
                        print('  VIOL', v['kind'], v['msg'], v['names'], v['inputs'], bytes.fromhex(v['inputs'])); print(v['loc']); print('   replay:', replay(W, j, v['inputs']))
                else: print(j['name'], r)
    finally: shutil.rmtree(W, ignore_errors=True)

def replay_file(p):
    import jobs
    m = re.search(r'^# property \S+ job (\S+) ', open(p).read(), re.M); j = [x for x in jobs.JOBS if x['name'] == m.group(1)][0]
    os.makedirs(B, exist_ok=True); W = tempfile.mkdtemp(prefix='w_rp_', dir=B)
    try: ok, how = replay(W, j, ''.join(l for l in open(p) if not l.startswith('#')).strip()); print(how); return 1 if ok else 0
    finally: shutil.rmtree(W, ignore_errors=True)

if __name__ == '__main__':
    if sys.argv[1] == '--replay': sys.exit(replay_file(sys.argv[2]))
    if sys.argv[1] == '--job': [dev(n) for n in sys.argv[2:]]; sys.exit(0)
    sys.exit(main(sys.argv[1]))
