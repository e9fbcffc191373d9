#!/usr/bin/env python3
"""Runs the solver-based check of one property against /repo's current source.

  check.py ID [quick|thorough]     decide property ID (exit 0 held, exit 1 + VIOLATION line)
  check.py replay FILE             run a recorded counterexample against the real code
  check.py setup                   build the engine
"""
import sys, os, subprocess, json, time, tempfile, shutil, resource, glob, re, threading
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(V, 'build')
LL = '/usr/lib/llvm-18/bin/'
sys.path.insert(0, V)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', **kw)

def must(cmd, **kw):
    r = sh(cmd, **kw)
    if r.returncode != 0:
        print('command failed: ' + ' '.join(cmd) + '\n' + r.stdout[-3000:] + r.stderr[-6000:], file=sys.stderr)
        raise SystemExit(2)
    return r

CLANG = ['clang++', '-std=gnu++14', '-g', '-O1', '-Xclang', '-disable-llvm-passes', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-fno-access-control', '-fdelayed-template-parsing',
         '-emit-llvm', '-c', '-w', '-I', V + '/engine/shim', '-I', V + '/rt']
OPT = 'function(sroa,early-cse,simplifycfg,instsimplify,early-cse,simplifycfg)'

def newer(out, ins):
    return os.path.exists(out) and all(os.path.getmtime(out) >= os.path.getmtime(i) for i in ins)

def engine():
    """msym (the symbolic executor) and the runtime models, built once from /verif's sources"""
    os.makedirs(BUILD, exist_ok=True)
    exe, rt = BUILD + '/msym', BUILD + '/vsrt.bc'
    src = [V + '/engine/msym.cpp', V + '/engine/expr.h', V + '/engine/lin.h']
    if not newer(exe, src):
        tmp = exe + '.%d' % os.getpid()
        must(['g++', '-O2', '-g1', '-std=c++17', '-w', '-I/usr/lib/llvm-18/include', src[0], '-o', tmp, '-L/usr/lib/llvm-18/lib', '-lLLVM-18', '-lz3'])
        os.rename(tmp, exe)
    rsrc = [V + '/rt/vsrt.cpp', V + '/rt/vs.h', V + '/engine/shim/vs_streams']
    if not newer(rt, rsrc):
        tmp = rt + '.%d' % os.getpid()
        must(CLANG + [rsrc[0], '-o', tmp])
        os.rename(tmp, rt)
    return exe, rt

class Unit:
    def __init__(self, spec, work, i):
        self.s, self.w, self.i = spec, work, i
        self.h = V + '/harness/' + spec['harness'] + '.cpp'
        self.defs = ['-D' + d for d in spec.get('defines', [])]
    def p(self, n):
        return os.path.join(self.w, '%d_%s' % (self.i, n))
    def sources(self):
        """the repository sources to link: the declared ones, and all others when something is left undefined"""
        src = [REPO + '/src/' + s for s in self.s.get('sources', [])]
        return src + (sorted(set(glob.glob(REPO + '/src/mathic/*.cpp')) - set(src) - {REPO + '/src/mathic/main.cpp'}) if getattr(self, 'all', False) else [])
    def bitcode(self, rt):
        l, o = self.p('l.bc'), self.p('o.bc')
        hb = once(self.w, 'bc', self.h, CLANG + self.defs + ['-I', REPO + '/src', self.h], '.bc')
        for attempt in (0, 1):
            with ThreadPoolExecutor(8) as ex:
                outs = [x for x in ex.map(lambda a: once(self.w, 'bc', a, CLANG + ['-I', REPO + '/src', a], '.bc', soft=attempt), self.sources()) if x]
            must([LL + 'llvm-link', hb] + outs + [rt, '-o', l])
            if attempt or not re.search(r'\b_ZNK?\w*6mathic', sh([LL + 'llvm-nm', '--undefined-only', l]).stdout): break
            self.all = True
        # std::min and std::max become selects instead of forks
        mm = sorted({x.split()[-1] for x in sh([LL + 'llvm-nm', '--defined-only', l]).stdout.splitlines() if re.search(r' _ZSt3(min|max)I', x)})
        must([LL + 'opt'] + ['-force-attribute=%s:alwaysinline' % x for x in mm] + ['-passes=' + ('forceattrs,always-inline,' if mm else '') + OPT, l, '-o', o])
        os.remove(l)
        return o
    def native(self, kind='asan'):
        exe = self.p('native_' + kind)
        if os.path.exists(exe): return exe
        flags = {'asan': ['-O1', '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'], 'plain': ['-O0'], 'o2': ['-O2', '-fstack-reuse=none']}[kind]
        cmd = ['g++', '-std=gnu++14', '-g', '-w', '-pthread', '-DVS_NATIVE'] + flags + ['-I', V + '/rt', '-I', REPO + '/src']
        rn = ['-DVS_REPLACE_NEW'] if self.s.get('replace_new') else []
        for attempt in (0, 1):
            jobs = [(self.h, self.defs), (V + '/rt/vs_native.cpp', rn)] + [(x, []) for x in self.sources()]
            with ThreadPoolExecutor(8) as ex:
                objs = [x for x in ex.map(lambda a: once(self.w, kind, a[0], cmd + a[1] + ['-c', a[0]], '.o', soft=getattr(self, 'all', False) and a[0].startswith(REPO)), jobs) if x]
            link = ['g++', '-pthread'] + [f for f in flags if f.startswith('-fsan')] + objs + ['-o', exe + '.tmp', '-lmemtailor']
            if attempt or getattr(self, 'all', False): must(link); break
            if sh(link).returncode == 0: break
            self.all = True
        os.rename(exe + '.tmp', exe)
        return exe

_once, _once_lock = {}, threading.Lock()
def once(work, kind, src, cmd, ext, soft=False):
    """compile one file the first time it is asked for; None when it may fail and does"""
    key = (kind, tuple(cmd))
    with _once_lock:
        if key not in _once: _once[key] = [threading.Lock(), 0, os.path.join(work, 'u%d_%s%s' % (len(_once), os.path.basename(src), ext))]
        e = _once[key]
    with e[0]:
        if not e[1]:
            if soft: e[1] = 1 if sh(cmd + ['-o', e[2]]).returncode == 0 else 2
            else: must(cmd + ['-o', e[2]]); e[1] = 1
    return e[2] if e[1] == 1 else None

def run_native(exe, lines, timeout, valgrind=False):
    """list of (status, outs, msg) for each input line"""
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0:exitcode=78')
    cmd = ['valgrind', '-q', '--error-exitcode=79', '--trace-children=yes', '--undef-value-errors=yes', exe] if valgrind else [exe]
    try:
        p = subprocess.run(cmd, input='\n'.join(lines) + '\n', stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=timeout, env=env)
        out = p.stdout
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b'')
        out = out.decode('utf8', 'replace') if isinstance(out, bytes) else out
    res, last, err = [], None, []
    for l in out.split('\n'):
        if l == 'E':
            res.append(last or ('noanswer', '', '')); last = None
        elif l.startswith('R '):
            f = l.split(' ', 3)
            new = (f[1], f[2][1:-1] if len(f) > 2 else '', f[3] if len(f) > 3 else '')
            # an exit status that signals an error outweighs what was printed before
            if last is None or new[0] == 'crash': last = new if last is None else ('crash', last[1], new[2])
    return res

def run_parallel(exe, lines, timeout, valgrind=False):
    n = min(8, len(lines)); res = [('noanswer', '', '')] * len(lines)
    with ThreadPoolExecutor(8) as ex:
        for k, r in zip(range(n), ex.map(lambda k: run_native(exe, lines[k::n], timeout, valgrind), range(n))):
            r = r[:len(lines[k::n])]; res[k:k + n * len(r):n] = r
    return res

def inputs_of(v):
    return ' '.join([v['entry']] + [str(x[1]) for x in v['values']])

def load_known():
    k = []
    f = V + '/known-findings.jsonl'
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l and not l.startswith('fixed:') and not l.startswith('#'):
                k.append(json.loads(l))
    return k

def check(pid, tier):
    import specs
    t0 = time.time()
    spec = specs.SPECS[pid]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    exe, rt = engine()
    work = tempfile.mkdtemp(prefix='vs-%s-' % pid)
    try:
        return check_in(pid, tier, spec, seed, exe, rt, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def check_in(pid, tier, spec, seed, exe, rt, work, t0):
    units = [Unit(u, work, i) for i, u in enumerate(spec['units'])]
    total = {k: 0 for k in ('paths', 'forks', 'insts', 'queries', 'sat', 'unsat', 'unknown', 'asserts', 'assert_queries', 'path_queries', 'int_queries', 'lin_queries', 'closure_asserts', 'const_asserts', 'infeasible', 'incomplete', 'unsupported', 'unknown_paths', 'violations', 'solver_s', 'repo_blocks', 'repo_blocks_hit')}
    funcs, bounds, vio, samples, notes, covers_seen, unit_rep = set(), [], [], [], [], set(), []
    hard = float(os.environ.get('VERIF_BUDGET', spec.get('hard', {'quick': 600, 'thorough': 3000}).get(tier, 600)))
    deadline = t0 + hard
    pool = ThreadPoolExecutor(6)
    bcs = [pool.submit(u.bitcode, rt) for u in units]
    natives = [pool.submit(u.native) for u in units]
    missing = []
    for u, bcf in zip(units, bcs):
        bc = bcf.result()
        ents = u.s['entries'][tier] if tier in u.s['entries'] else u.s['entries']['quick']
        out = u.p('out.jsonl')
        left = max(10.0, deadline - time.time())
        budget = min(left, float(u.s.get('budget', {}).get(tier, 150 if tier == 'quick' else 1500)))
        cmd = [exe, '--bc', bc, '--out', out, '-j', str(spec.get('jobs', 8)), '--budget', str(budget), '--repo', REPO, '--seed', str(seed), '--samples', str(u.s.get('samples', 24 if tier == 'quick' else 60)), '--max-steps', str(u.s.get('max_steps', 3000000)), '--qtimeout', str(u.s.get('qtimeout', 20000))] + u.s.get('flags', [])
        for e in ents: cmd += ['--entry', e]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=budget + 120)
        except subprocess.TimeoutExpired:
            print('engine did not stop', file=sys.stderr); return 2
        summ, cov = None, set()
        for l in open(out, errors='replace'):
            try: j = json.loads(l)
            except ValueError: continue
            t = j.get('t')
            if t == 'violation': j['unit'] = u; vio.append(j)
            elif t == 'sample': j['unit'] = u; samples.append(j)
            elif t == 'cover': cov.add((j['entry'].split(':')[0], j['name']))
            elif t in ('unsupported', 'unknown'): notes.append('%s: %s (%s)' % (t, j.get('msg'), (j.get('stack') or ['?'])[0] if isinstance(j.get('stack'), list) else ''))
            elif t == 'summary': summ = j
        if summ is None:
            print('engine failed:\n' + r.stderr[-3000:], file=sys.stderr); return 2
        for k in total: total[k] += summ.get(k, 0)
        funcs.update(summ.get('functions', []))
        bounds.append({'harness': u.s['harness'], 'entries': ents, 'exhausted_within_bounds': summ['stop'] == 0 and not summ['incomplete'] and not summ['unsupported'] and not summ['unknown_paths'], 'paths': summ['paths'], 'queries': summ['queries'], 'solver_s': summ['solver_s'], 'wall_s': summ['wall'], 'stopped_by': {0: 'complete', 1: 'budget', 2: 'violations'}.get(summ['stop'])})
        # vacuity: a completed exploration must have reached every witness
        if bounds[-1]['exhausted_within_bounds']:
            for e in ents:
                n = e.split(':')[0]
                for c in u.s.get('covers', ['end']):
                    if c.endswith('@*') or '@' not in c:
                        if (n, c.split('@')[0]) not in cov: missing.append((n, c))
                    elif c.split('@')[1] == n and (n, c.split('@')[0]) not in cov: missing.append((n, c))
        # a violation that the real code shows as well settles the matter: the units left are not needed
        if replay_found(pid, u, [v for v in vio if v['unit'] is u], natives[units.index(u)]) : break
    # ---- replay against the real code
    known, reported, spurious, kf = load_known(), [], [], []
    def exe_of(u): return natives[units.index(u)].result()
    for v in vio:
        if 'native' in v: (reported if v['native'][0] in ('assert', 'crash') else spurious).append(v)
    # ---- sampled paths: the real code must behave exactly as the encoding says
    validated = mismatches = 0
    for u in units:
        mine = [s for s in samples if s['unit'] is u][:400]
        if not mine: continue
        for s, r in zip(mine, run_parallel(exe_of(u), [inputs_of(s) for s in mine], 60)):
            if r[0] == 'ok' and r[1] == ','.join(s['outs']): validated += 1
            elif r[0] in ('assert', 'crash'):
                reported.append({'entry': s['entry'], 'kind': 'real-code', 'msg': 'the real code fails on an explored path: %s %s' % (r[0], r[2]), 'where': '', 'values': s['values'], 'native': r, 'unit': u, 'stack': []})
            else:
                mismatches += 1; notes.append('encoding mismatch on %s: engine %s native %s %s' % (inputs_of(s), ','.join(s['outs']), r[0], r[1]))
    pool.shutdown(cancel_futures=True)
    final = []
    for v in reported:
        hit = is_known(pid, v)
        if hit: kf.append(hit)
        else: final.append(v)
    for w in {json.dumps(k, sort_keys=True) for k in known if k['property'] == pid}:
        k = json.loads(w); print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    os.makedirs(V + '/evidence', exist_ok=True); os.makedirs(V + '/replays', exist_ok=True)
    exhausted = all(b['exhausted_within_bounds'] for b in bounds)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(time.time() - t0, 2), 'violations': len(final),
          'assumptions': spec.get('assumptions', []),
          'coverage': {'states': total['paths'], 'transitions': total['forks'], 'traces_validated_against_impl': validated,
            'samples': [{'entry': s['entry'], 'inputs': s['values'][:40], 'observed': s['outs'][:40]} for s in samples[:4]] + [{'entry': v['entry'], 'violation': v['msg'], 'inputs': v['values'][:40]} for v in final[:3]],
            'explanation': 'states = symbolic execution paths of the real code explored to their end (each stands for all inputs satisfying its path condition); transitions = solver-decided forks; traces = solver models of explored paths replayed on the natively compiled code with identical observable output',
            'exhaustive': exhausted, 'bounds': spec.get('bounds', ''), 'units': bounds, 'solver': 'Z3 (bit-vectors, linear integers for pure order queries)',
            'queries_discharged': total['queries'], 'queries_sat': total['sat'], 'queries_unsat': total['unsat'], 'queries_unknown': total['unknown'], 'solver_time_s': round(total['solver_s'], 2),
            'assertions_reached': total['asserts'], 'assertions_constant_after_path_condition': total['const_asserts'], 'assertions_decided_by_dedicated_query': total['assert_queries'], 'assertions_decided_in_path_query': total['closure_asserts'], 'path_queries': total['path_queries'],
            'instructions_executed': total['insts'], 'infeasible_paths_cut': total['infeasible'], 'paths_cut_unsupported': total['unsupported'], 'paths_cut_solver_unknown': total['unknown_paths'], 'paths_left_at_budget': total['incomplete'],
            'functions_encoded': sorted(funcs), 'repo_basic_blocks': total['repo_blocks'], 'repo_basic_blocks_reached': total['repo_blocks_hit'],
            'encoding_mismatches': mismatches, 'counterexamples_not_reproduced': len(spurious), 'notes': notes[:20]}}
    with open(V + '/evidence/%s.json' % pid, 'w') as f: json.dump(ev, f, indent=1)
    print('%s %s: %d paths, %d queries (%.1f s solver), %d assertions, %d traces validated, %s, %.1f s' % (pid, tier, total['paths'], total['queries'], total['solver_s'], total['asserts'], validated, 'exhausted within bounds' if exhausted else 'NOT exhausted', time.time() - t0))
    for b in bounds: print('   %-12s %-8s paths %-8d queries %-8d %6.1f s  %s' % (b['harness'], b['stopped_by'], b['paths'], b['queries'], b['wall_s'], ' '.join(b['entries'])))
    for n in notes[:10]: print('   note: ' + n[:400])
    for v in spurious[:10]: print('   not reproduced: %s %s %s @ %s -> %s  [%s]' % (v['entry'], v['kind'], v['msg'], v['where'], v.get('native'), inputs_of(v)))
    if final:
        for i, v in enumerate(final):
            path = V + '/replays/%s-%d.txt' % (pid, i)
            with open(path, 'w') as f:
                f.write(json.dumps({'property': pid, 'harness': v['unit'].s['harness'], 'spec': {k: x for k, x in v['unit'].s.items() if k != 'entries'}, 'line': inputs_of(v), 'kind': v['kind'], 'msg': v['msg'], 'where': v['where'], 'values': v['values'], 'stack': v.get('stack'), 'native': v['native']}) + '\n')
            print('   %s: %s: %s @ %s (real code: %s %s)' % (v['entry'], v['kind'], v['msg'], v['where'], v['native'][0], v['native'][2]))
            if i == 0: first = path
            if i >= 9: break
        print('VIOLATION property=%s replay=%s' % (pid, first))
        return 1
    if missing:
        print('vacuity: not reached: %s' % missing, file=sys.stderr); return 2
    return 0

def is_known(pid, v):
    for k in load_known():
        if k['property'] == pid and k['entry'] == v['entry'].split(':')[0] and k['kind'] == v['kind'] and k['msg'] in v['msg'] and k.get('where', '') in v['where']: return k

def replay_found(pid, u, vio, native):
    """Replays one violation of each kind on the natively built code; true if one that is not a known finding shows there."""
    groups = {}
    for v in vio: groups.setdefault((v['entry'], v['kind'], v['msg'], v['where']), []).append(v)
    todo = [g[0] for g in groups.values()][:60]
    found = False
    while todo and not found:
        now, todo = todo[:8], todo[8:]
        for v, r in zip(now, run_parallel(native.result(), [inputs_of(v) for v in now], 100)):
            v['native'] = r
            if r[0] not in ('assert', 'crash'):
                if v['kind'] == 'uninitialised':
                    rr = run_native(u.native('plain'), [inputs_of(v)], 120, valgrind=True)
                    if rr and rr[0][0] in ('assert', 'crash'): v['native'] = rr[0]
                elif v['kind'] == 'step-limit' and r[0] == 'noanswer': v['native'] = ('crash', '', 'timeout')
            if v['native'][0] in ('assert', 'crash') and not is_known(pid, v): found = True
    return found

def replay(path):
    j = json.loads(open(path).readline())
    work = tempfile.mkdtemp(prefix='vs-replay-')
    try:
        u = Unit(dict(j['spec'], entries={}), work, 0)
        r = run_native(u.native(), [j['line']], 60)
        print(j['msg'], '|', j['where']); print('inputs:', j['line']); print('real code:', r)
        return 1 if r and r[0][0] in ('assert', 'crash') else 0
    finally: shutil.rmtree(work, ignore_errors=True)

if __name__ == '__main__':
    if len(sys.argv) < 2: print(__doc__); sys.exit(2)
    if sys.argv[1] == 'setup': engine(); sys.exit(0)
    if sys.argv[1] == 'replay': sys.exit(replay(sys.argv[2]))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(check(sys.argv[1], tier))
