#!/usr/bin/env python3
"""Development aid: confirm a planted bug, and see which checks report it.

  plant.py confirm ID...        build, stable tests, demo on clean and on patched copies
  plant.py catch ID [CHECK...]  run the checks (default: the bug's property) against the patched copy
"""
import sys, os, subprocess, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def run(c, cwd=None, env=None, t=900):
    try:
        p = subprocess.run(c, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=t)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired: return 124, 'timeout'
def copy(tag):
    w = '/tmp/plant-%s-%d' % (tag, os.getpid())
    run(['cp', '-a', '/repo', w]); os.makedirs(w + '/.vp', exist_ok=True)
    for s in ('build.sh', 'test.sh'):
        t = open('/opt/vp/' + s).read().replace('R=/repo', 'R=' + w).replace('B=/repo/_build', 'B=' + w + '/_build').replace('/opt/vp/build.sh', w + '/.vp/build.sh')
        open(w + '/.vp/' + s, 'w').write(t)
    # the copied build tree names /repo: configure afresh
    shutil.rmtree(w + '/_build', ignore_errors=True)
    return w
def demo(d, w):
    # stands elsewhere, as in the final check
    t = tempfile.mkdtemp(prefix='demo-')
    for f in os.listdir(d):
        if not f.endswith(('.diff', '.patch')) and f != 'meta.json': shutil.copy(os.path.join(d, f), t)
    # the demonstrations name no path but /repo through their cwd
    r = run(['bash', t + '/demo.sh'], cwd=w, t=300); shutil.rmtree(t); return r
def confirm(i, clean):
    d = V + '/seeded/' + i; w = copy(i); ok = True; msg = []
    try:
        r = demo(d, clean)
        if r[0] != 0: ok = False; msg.append('demo fails on clean: ' + r[1][-600:])
        r = run(['git', 'apply', d + '/patch.diff'], cwd=w)
        if r[0]: return False, ['patch: ' + r[1]]
        r = run(['bash', w + '/.vp/build.sh'], cwd=w)
        if r[0]: return False, ['build: ' + r[1][-1500:]]
        r = run(['bash', w + '/.vp/test.sh', w + '/.vp/out.json'], cwd=w)
        j = json.load(open(w + '/.vp/out.json')); base = json.load(open('/opt/vp/BASELINE.json'))
        names = base.get('stable_pass') or base.get('passed') or base.get('stable') or base
        bad = [n for n in names if n not in j['passed']]
        if bad: ok = False; msg.append('tests fail: %s' % bad)
        r = demo(d, w)
        if r[0] == 0: ok = False; msg.append('demo passes with patch')
        else: msg.append('demo: %d %s' % (r[0], r[1].strip()[-150:]))
    finally: shutil.rmtree(w, ignore_errors=True)
    return ok, msg
def catch(i, checks):
    d = V + '/seeded/' + i; w = '/tmp/plant-c-%s-%d' % (i, os.getpid())
    run(['git', 'clone', '-q', '/repo', w])
    try:
        r = run(['git', 'apply', d + '/patch.diff'], cwd=w)
        for c in checks or [json.load(open(d + '/meta.json'))['property']]:
            r = run(['python3', V + '/check.py', c], env=dict(os.environ, VERIF_REPO=w, VERIF_SEED='1'))
            v = [l for l in r[1].split('\n') if 'VIOLATION' in l or 'violat' in l.lower()]
            print('%-28s %s -> %d %s' % (i, c, r[0], (v[0][:150] if v else r[1][-300:])), flush=True)
    finally: shutil.rmtree(w, ignore_errors=True)
if __name__ == '__main__':
    if sys.argv[1] == 'confirm':
        from concurrent.futures import ThreadPoolExecutor
        clean = copy('clean')
        run(['bash', clean + '/.vp/build.sh'], cwd=clean)
        ids = sys.argv[2:] or sorted(os.listdir(V + '/seeded'))
        with ThreadPoolExecutor(3) as ex:
            for i, (ok, m) in zip(ids, ex.map(lambda i: confirm(i, clean), ids)): print('%-28s %s %s' % (i, 'ok' if ok else 'BAD', ' | '.join(m)), flush=True)
        shutil.rmtree(clean, ignore_errors=True)
    else:
        if sys.argv[2] == 'all':
            for i in sorted(os.listdir(V + '/seeded')): catch(i, [])
        else: catch(sys.argv[2], sys.argv[3:])
