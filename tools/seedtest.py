#!/usr/bin/env python3
"""seedtest.py [-t] [-c] [-p P12,P18] ID...|all: generate seeded bugs and confirm them: builds, stable tests pass (-t), demo passes without and fails with
the patch; with -c also runs the check of the bug's property (quick), -p extra checks. Works in /repo, undone afterwards."""
import sys, subprocess, os, json, time
sys.path.insert(0, '/verif/tools')
import seedlib
a = sys.argv[1:]; T = '-t' in a; C = '-c' in a; extra = []
if '-p' in a: i = a.index('-p'); extra = a[i+1].split(','); del a[i:i+2]
ids = [x for x in a if not x.startswith('-')]
S = {s['id']: s for s in seedlib.load()}
if ids == ['all']: ids = list(S)
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, errors='replace', **k)
assert not sh('git -C /repo status --porcelain').stdout, 'repo dirty'
VC = os.environ.get('VC', '/verif')
base = json.load(open('/opt/vp/BASELINE.json'))
def stable(out):
    return out
for i in ids:
    d = seedlib.gen(S[i])
    sh('bash /opt/vp/build.sh')
    r0 = sh(f'bash {d}/demo.sh', cwd='/repo').returncode
    res = [f'demo0={r0}']
    a_ = sh(f'git -C /repo apply {d}/patch.diff')
    if a_.returncode: print(i, 'PATCH DOES NOT APPLY', a_.stderr); continue
    try:
        b = sh('bash /opt/vp/build.sh'); res.append(f'build={b.returncode}')
        if b.returncode: print(b.stdout[-2000:], b.stderr[-2000:])
        t0 = time.time(); r = sh(f'bash {d}/demo.sh', cwd='/repo'); res.append(f'demo1={r.returncode}({time.time()-t0:.0f}s)')
        if r.returncode == 0 or '-v' in a: print(r.stdout[-500:], r.stderr[-500:])
        if T:
            sh('bash /opt/vp/test.sh /tmp/seedt.json')
            got = json.load(open('/tmp/seedt.json'))
            j = sh('python3 /verif/tools/cmpbase.py /tmp/seedt.json'); res.append('tests:' + j.stdout.strip())
        for p in ([S[i]['prop']] if C else []) + extra:
            t0 = time.time(); r = sh(f'python3 {VC}/run_check.py {p} quick', cwd=VC)
            v = [l for l in r.stdout.split('\n') if 'VIOLATION' in l]
            res.append(f"{p}:rc={r.returncode} {len(v)}v {time.time()-t0:.0f}s {'CAUGHT' if r.returncode == 1 and v else 'MISSED'}")
    finally:
        sh('git -C /repo checkout -- .')
    print(i, S[i]['prop'], *res, flush=True)
sh('bash /opt/vp/build.sh')
