#!/usr/bin/env python3
"""Quick mutation experiment: apply one edit at a time to a scratch copy of /repo and run the
quick checks of the named properties on it.   mutants.py [-r REPOCOPY] [-f FILE] NAME...|all
(development aid; no check uses it)"""
import os, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = []
def m(name, props, file, *edits): M.append((name, props.split(), file, edits))
for f in sorted(os.listdir(HERE + '/tools')):
    if f.startswith('mutants_') and f.endswith('.py'):
        exec(open(HERE + '/tools/' + f).read())
def main():
    a = sys.argv[1:]; rc = '/tmp/rc'; verif = HERE
    while a and a[0].startswith('-'):
        if a[0] == '-r': rc = a[1]; a = a[2:]
        elif a[0] == '-c': verif = a[1]; a = a[2:]
    sel = [x for x in M if 'all' in a or x[0] in a or any(p in a for p in x[1])]
    for name, props, file, edits in sel:
        subprocess.run(['git', '-C', rc, 'checkout', '-q', '--', '.'])
        p = f'{rc}/{file}'; s = open(p).read()
        bad = False
        for old, new in edits:
            if old not in s: print(name, 'EDIT DOES NOT APPLY', repr(old[:50])); bad = True; break
            s = s.replace(old, new, 1)
        if bad: continue
        open(p, 'w').write(s)
        out = []
        for pr in props:
            t = time.time()
            r = subprocess.run(['python3', 'run_check.py', pr, 'quick'], cwd=verif, capture_output=True,
                               text=True, env=dict(os.environ, OSHMC_REPO=rc))
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            out.append(f'{pr}:rc={r.returncode} {len(v)}v {time.time()-t:.0f}s' + ('' if r.returncode == 1 and v else ' ***MISSED'))
            if r.returncode not in (0, 1): out.append((r.stdout + r.stderr)[-300:])
        print(name, *out, flush=True)
    subprocess.run(['git', '-C', rc, 'checkout', '-q', '--', '.'])
main()
