#!/usr/bin/env python3
"""check.py <property-id> [--thorough] [--only harness] [--verbose] [--keep]

Decides one property by symbolic execution of the real ViennaGrid code:
  1. compiles every harness/<id>*.cpp against /repo's current headers to LLVM bitcode,
     instruments it (engine/instr.cpp) and links it with the symbolic runtime (engine/runtime.cpp);
  2. explores all paths of every harness; every assertion is put to z3 under the path condition;
  3. compiles the same harness natively (g++ -std=gnu++98 -O2) and replays every counterexample and a
     sample of path witnesses; only failures that reproduce on the real code are reported.
"""
import sys, os, json, subprocess, time, glob, re, shutil, tempfile, threading, resource
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
ENG = os.path.join(V, 'build', 'engine')
Z3LIB = '/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib'
SYM = ['clang++-18', '-std=gnu++98', '-O1', '-gline-tables-only', '-ffp-contract=off', '-fno-vectorize', '-fno-slp-vectorize',
       '-fno-math-errno', '-fno-unroll-loops', '-w', '-I' + REPO, '-I' + os.path.join(V, 'engine'), '-I' + os.path.join(V, 'harness'), '-DVS_SYMBOLIC']
NAT = ['g++', '-std=gnu++98', '-O2', '-w', '-I' + REPO, '-I' + os.path.join(V, 'engine'), '-I' + os.path.join(V, 'harness')]

def die(msg, code=2):
    print('ERROR: ' + msg); sys.stdout.flush(); sys.exit(code)

def run(cmd, timeout=800):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace')
    return p.returncode, p.stdout

def compile_tu(src, bd):
    n = os.path.splitext(os.path.basename(src))[0]; b = os.path.join(bd, n)
    def sym():
        for c in (SYM + ['-emit-llvm', '-c', src, '-o', b + '.bc'],
                  [os.path.join(ENG, 'vgsym-instr'), b + '.bc', b + '.i.bc', b + '.funcs'],
                  ['clang++-18', '-O1', '-w', '-c', b + '.i.bc', '-o', b + '.o'],
                  ['clang++-18', b + '.o', os.path.join(ENG, 'runtime.o'), '-o', b + '.sym', os.path.join(Z3LIB, 'libz3.so'), '-Wl,-rpath,' + Z3LIB, '-lgmpxx', '-lgmp']):
            r, o = run(c)
            if r: return 'FAILED: %s\n%s' % (' '.join(c), o[:4000])
        for e in ('.bc', '.i.bc', '.o'): os.unlink(b + e)
    def nat():
        r, o = run(NAT + [src, os.path.join(ENG, 'native.o'), '-o', b + '.nat'])
        if r: return 'FAILED native: %s\n%s' % (src, o[:4000])
    with ThreadPoolExecutor(2) as ex:
        a, c = ex.submit(sym), ex.submit(nat)
        return n, a.result() or c.result()

def known_findings():
    out = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) harness=(\S+) check="([^"]*)" (.*)', l.strip())
            if m: out.append(m.groups())
    return out

def main():
    t0 = time.time()
    args = sys.argv[1:]
    pid = args[0]
    tier = 'thorough' if ('--thorough' in args or os.environ.get('VERIF_TIER') == 'thorough') else 'quick'
    only = args[args.index('--only') + 1] if '--only' in args else None
    seed = int(os.environ.get('VERIF_SEED', '1'))
    verbose = '--verbose' in args
    prop = None
    for l in open(os.path.join(V, 'properties.jsonl')):
        l = l.strip()
        if l:
            d = json.loads(l)
            if d['id'] == pid: prop = d
    r, o = run([os.path.join(V, 'engine', 'build_engine.sh'), ENG])
    if r: die('engine build failed\n' + o)
    srcs = sorted(glob.glob(os.path.join(V, 'harness', pid + '_*.cpp')))
    if not srcs: die('no harness for ' + pid)
    bd = os.path.join(V, 'build', pid + '.' + str(os.getpid())); shutil.rmtree(bd, ignore_errors=True); os.makedirs(bd)
    try:
        return check(pid, tier, only, seed, verbose, srcs, bd, t0)
    finally:
        if '--keep' not in args: shutil.rmtree(bd, ignore_errors=True)

def check(pid, tier, only, seed, verbose, srcs, bd, t0):
    with ThreadPoolExecutor(4) as ex: comp = list(ex.map(lambda s: compile_tu(s, bd), srcs))
    errs = [e for n, e in comp if e]
    if errs: die('harness does not build against the current tree:\n' + '\n'.join(errs))
    tcomp = time.time() - t0
    jobs = []
    for n, _ in comp:
        r, o = run([os.path.join(bd, n + '.nat'), '--list'])
        for l in o.split('\n'):
            if not l.strip(): continue
            h, th = l.split()
            if only and h != only: continue
            if th == '1' and tier == 'quick': continue
            jobs.append((n, h))
    if not jobs: die('no harness functions')
    # budget: the whole quick check has to end well within 900 s
    total = 520.0 if tier == 'quick' else 6000.0
    conc = min(len(jobs), 4)
    per = float(os.environ.get('VS_TIME', max(45.0, total * conc / len(jobs) / 1.3)))
    if tier == 'quick': per = min(per, 240.0)
    env = dict(os.environ, VS_TIME=str(per), VS_TIER=tier, VS_JOBS=str(max(2, 8 // conc)), VS_VERBOSE='1' if verbose else '0',
               VS_MAXPATHS=os.environ.get('VS_MAXPATHS', '20000' if tier == 'quick' else '200000'))
    known = [k for k in known_findings() if k[0] == pid]
    stop = threading.Event()
    def replay(x):
        n, h, f = x
        try:
            p = subprocess.run([os.path.join(bd, n + '.nat'), h, f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=30, text=True, errors='replace', env=dict(os.environ, VS_TIER=tier),
                               preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30)))
            rc, out = p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            rc, out = 1, 'FAIL no termination within 30 s\n'
        new = []
        if rc == 1:
            fails = [l[5:] for l in out.split('\n') if l.startswith('FAIL ')] or ['?']
            for m in fails:
                k = next((k for k in known if k[1] == h and m.startswith(k[2])), None)
                if k: knownhit[k] = m
                else: new.append(m)
        return x, rc, out, new
    knownhit = {}
    # symbolic exploration of one harness; its candidates are replayed on the real code at once, and once a violation is
    # confirmed the harnesses that have not started yet are skipped
    def explore(j):
        n, h = j
        if stop.is_set(): return j, None, None, []
        od = os.path.join(bd, 'out_' + h); os.makedirs(od, exist_ok=True)
        p = subprocess.run([os.path.join(bd, n + '.sym'), h, od], stdout=subprocess.PIPE, stderr=None if verbose else subprocess.DEVNULL, env=env, text=True, errors='replace')
        line = [l for l in p.stdout.split('\n') if l.startswith('{"harness"')]
        if not line: return j, None, od, []
        rr = []
        for f in sorted(os.listdir(od)):
            if not f.endswith('.in') or '_cand_' not in f: continue
            if len([1 for r in rr if r[3]]) >= 3: break
            rr.append(replay((n, h, os.path.join(od, f))))
        if any(r[3] for r in rr): stop.set()
        return j, json.loads(line[-1]), od, rr
    with ThreadPoolExecutor(conc) as ex: res4 = list(ex.map(explore, jobs))
    bad = [j for j, s, o, r in res4 if s is None and o is not None]
    if bad and not stop.is_set(): die('symbolic run gave no result: %s' % bad)
    skipped = [j for j, s, o, r in res4 if s is None]
    res = [(j, s, o) for j, s, o, r in res4 if s is not None]
    rr = [x for j, s, o, r in res4 for x in r]
    # ---- witnesses of completed paths, replayed on the real code
    wit = [(n, h, os.path.join(od, f)) for (n, h), s, od in res for f in sorted(os.listdir(od)) if f.endswith('.in') and '_cand_' not in f]
    if not stop.is_set():
        with ThreadPoolExecutor(8) as ex: rr += list(ex.map(replay, wit))
    viol, unrepro, wit_ok, wit_skip = [], 0, 0, 0
    for (n, h, f), rc, out, new in rr:
        iscand = '_cand_' in os.path.basename(f)
        if rc == 1:
            if new: viol.append((h, f, new))
        elif rc == 0:
            if iscand: unrepro += 1
            else: wit_ok += 1
        else: wit_skip += 1
    rd = os.path.join(V, 'evidence', 'replay'); os.makedirs(rd, exist_ok=True)
    for f in glob.glob(os.path.join(rd, pid + '-*')): os.unlink(f)
    shown = {}
    src_of = {h: os.path.join(V, 'harness', n + '.cpp') for n, h in jobs}
    for h, f, fails in viol:
        key = (h, fails[0].split(' [')[0])
        if key in shown: continue
        dst = os.path.join(rd, '%s-%s-%d.in' % (pid, h, len(shown)))
        shown[key] = dst
        body = open(f).read()
        open(dst, 'w').write(body + ''.join('# real code: FAIL %s\n' % m for m in fails) +
            '# reproduce: g++ -std=gnu++98 -O2 -I%s -I%s/engine -I%s/harness %s %s/build/engine/native.o -o /tmp/replay && /tmp/replay %s %s\n' % (REPO, V, V, src_of[h], V, h, dst))
    # ---- evidence
    tot = lambda k: sum(s[k] for j, s, o in res)
    ends = {}
    for j, s, o in res:
        for k, v in s['ends'].items(): ends[k] = ends.get(k, 0) + v
    funcs = set()
    for n, _ in comp:
        p = os.path.join(bd, n + '.funcs')
        if os.path.exists(p): funcs |= set(l.strip() for l in open(p))
    samples = []
    for (n, h, f), rc, out, new in rr[:400]:
        if len(samples) < 6 and not any(x['harness'] == h for x in samples):
            samples.append({'harness': h, 'path_witness': [l.strip() for l in open(f) if '=' in l][:40], 'replay_on_real_code': out.strip().split('\n')[-1][:200]})
    bounds = []
    for s in srcs:
        for l in open(s):
            m = re.match(r'//\s*BOUND:\s*(.*)', l)
            if m: bounds.append(m.group(1).strip())
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {
              'states': tot('paths'), 'transitions': tot('forks') + tot('queries'),
              'traces_validated_against_impl': wit_ok,
              'samples': samples,
              'explanation': 'states = symbolic execution paths; transitions = path splits plus solver queries; traces validated = path witnesses/counterexample inputs replayed on the natively compiled real code with all checks passing',
              'functions_encoded': len(funcs), 'functions_encoded_list': sorted(funcs)[:400],
              'solver': 'z3 5.3 (qfnra-nlsat for real arithmetic, smt core for bit-vectors)', 'queries': tot('queries'), 'solver_s': round(tot('solver_s'), 2),
              'assertions_executed': tot('asserts'), 'assertions_by_polynomial_normal_form': tot('asserts_by_normal_form'), 'assertions_by_solver_query': tot('asserts_by_solver'),
              'assertions_undecided': tot('asserts_undecided'), 'branches_undecided_treated_as_feasible': tot('unknown_branches'),
              'path_ends': ends, 'bounds': bounds, 'exhaustive_within_bounds': ends.get('cut_by_budget', 0) == 0 and ends.get('unsupported', 0) == 0 and tot('asserts_undecided') == 0,
              'counterexamples_not_reproduced': unrepro, 'witnesses_outside_assumptions_after_rounding': wit_skip,
              'unsupported': sorted(set(u for j, s, o in res for u in s['unsupported'])),
              'harnesses': [{k: s[k] for k in ('harness', 'wall_s', 'paths', 'queries', 'solver_s', 'asserts', 'asserts_undecided', 'unknown_branches', 'candidates', 'ends', 'checks')} for j, s, o in res],
              'compile_s': round(tcomp, 1)},
          'assumptions': ['floating-point values are interpreted as exact real numbers (rounding is outside the claim; every counterexample is replayed on the real doubles)',
                          'inputs and sizes are bounded as listed in coverage.bounds', 'divisions by zero and NaN domains end a path and are counted in path_ends'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(shown)}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    for j, s, o in res:
        print('%-34s %6.1fs paths=%d asserts=%d (nf %d, smt %d, undecided %d) queries=%d solver=%.1fs cand=%d unkbr=%d ends=%s' % (s['harness'], s['wall_s'], s['paths'], s['asserts'], s['asserts_by_normal_form'], s['asserts_by_solver'], s['asserts_undecided'], s['queries'], s['solver_s'], s['candidates'], s['unknown_branches'], {k: v for k, v in s['ends'].items() if v}))
        if s['unsupported']: print('    unsupported: ' + '; '.join(s['unsupported'][:5]))
        if verbose:
            for fs in s['fork_sites']: print('    fork %d at %s' % (fs['n'], fs['site']))
            for c in s['checks']: print('    check', c)
    if skipped: print('skipped after the first confirmed violation: %s' % ' '.join(h for n, h in skipped))
    print('compile %.1fs, replayed %d (%d ok, %d outside assumptions, %d counterexamples not reproduced)' % (tcomp, len(rr), wit_ok, wit_skip, unrepro))
    for k, m in knownhit.items(): print('KNOWN-FINDING: property=%s %s' % (pid, k[3]))
    if shown:
        for (h, m), dst in shown.items(): print('  %s: %s' % (h, m))
        for (h, m), dst in shown.items():
            print('VIOLATION property=%s replay=%s' % (pid, dst))
        return 1
    vac = [s['harness'] for j, s, o in res if s['ends']['completed'] + s['ends']['cut_by_budget'] == 0 or s['asserts'] == 0]
    if vac: die('vacuous harness (no completed path or no assertion reached): %s' % vac)
    return 0

if __name__ == '__main__':
    sys.exit(main())
