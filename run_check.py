#!/usr/bin/env python3
"""run_check.py Pxx quick|thorough   -- builds the library variants under the explorer and runs the property's explorations.

Exit 0: nothing violated (inconclusive parts are listed in the evidence); exit 1: 'VIOLATION property=<id> replay=<path>'."""
import os, sys, json, time, subprocess, threading, queue, signal, fnmatch
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'mc'))
sys.path.insert(0, os.path.join(HERE, 'spec'))
os.chdir(HERE)
import build as B
import runs as R

def load_known():
    out = []
    p = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(p):
        out = json.load(open(p))['findings']
    return out

def argv_of(exe, so, r, base):
    a = [exe, '--so', so, '--scen', r['scen'], '--npe', str(r.get('npe', 2)), '--sched', r.get('sched', 'explore')]
    env = {'SHMEM_SYMMETRIC_SIZE': '4096'}
    env.update(r.get('env', {}))
    for k, v in sorted(env.items()):
        if v is not None:
            a += ['--env', '%s=%s' % (k, v)]
    for k, v in sorted(r.get('args', {}).items()):
        a += ['--arg', '%s=%s' % (k, v)]
    a += [str(x) for x in r.get('flags', [])]
    a += ['--max-secs', str(r['max_secs']), '--max-states', str(r['max_states']), '--max-mem', str(r['max_mem'])]
    a += ['--out', base + '.json', '--replay-out', base + '.replay']
    return a

def name_of(r):
    n = '%s@%s/%d/%s' % (r['scen'], r.get('variant', 'base'), r.get('npe', 2), r.get('sched', 'explore'))
    for k, v in sorted(r.get('args', {}).items()):
        n += ',%s=%s' % (k, v)
    for k, v in sorted(r.get('env', {}).items()):
        n += ',%s=%s' % (k.replace('OSHMPI_', '').replace('_DBG_MODE', ''), v)
    if r.get('flags'):
        n += ',' + ' '.join(str(x) for x in r['flags'])
    return n

def execute(prop, tier, filt=None, verbose=False, keep_going=False):
    t0 = time.time()
    runs = [dict(r) for r in R.runs_for(prop, tier)]
    if filt:
        runs = [r for r in runs if fnmatch.fnmatch(name_of(r), '*' + filt + '*')]
    hard = 600 if tier == 'quick' else 840
    hard = int(os.environ.get('OSHMC_BUDGET', hard))
    for r in runs:
        r.setdefault('max_secs', 120 if tier == 'quick' else 600)
        r.setdefault('max_states', 3000000)
        r.setdefault('max_mem', 3000)
        r['name'] = name_of(r)
    variants = sorted({r.get('variant', 'base') for r in runs})
    try:
        exe, sos = B.build(variants)
    except B.BuildError as e:
        return dict(build_error=str(e)[-3000:], runs=[], wall=time.time() - t0)
    tb = time.time() - t0
    tmp = os.path.join(HERE, '.build', 'run-%d' % os.getpid())
    os.makedirs(tmp, exist_ok=True)
    # longest first
    q = queue.PriorityQueue()
    for i, r in enumerate(runs):
        q.put((-r.get('cost', 1), i, r))
    stop = threading.Event()
    procs = set()
    def worker():
        while not stop.is_set():
            try:
                _, i, r = q.get_nowait()
            except queue.Empty:
                return
            left = hard - (time.time() - t0)
            if left < 3:
                r['res'] = dict(status='skipped', message='time budget used up')
                continue
            r['max_secs'] = min(r['max_secs'], max(2, left - 5))
            base = os.path.join(tmp, 'r%d' % i)
            cmd = argv_of(exe, sos[r.get('variant', 'base')], r, base)
            r['cmd'] = cmd
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True)
            procs.add(p)
            try:
                out, _ = p.communicate(timeout=r['max_secs'] * 1.5 + 30)
            except subprocess.TimeoutExpired:
                p.kill(); out, _ = p.communicate()
                out += ' (killed)'
            procs.discard(p)
            if stop.is_set() and not keep_going and p.returncode == -9:
                r['res'] = None
                continue
            try:
                r['res'] = json.load(open(base + '.json'))
            except Exception:
                r['res'] = dict(status='internal', message='rc=%s %s' % (p.returncode, out[-600:]))
            if r['res'].get('status') == 'violation':
                try:
                    r['replay'] = json.load(open(base + '.replay'))
                except Exception:
                    r['res'] = dict(status='internal', message='no replay: ' + str(r['res'])[:300])
            if verbose:
                print('%-9s %7.2fs %8s st %6s out  %s  %s' % (r['res'].get('status'), r['res'].get('wall', 0), r['res'].get('states'), r['res'].get('outcomes_n'), r['name'], r['res'].get('message', '')[:300]) + ('' if r['res'].get('exhaustive', True) else '  [CAPPED]'), flush=True)
            if r['res'].get('status') == 'violation' and not keep_going and not known_for(prop, r):
                stop.set()
    n = int(os.environ.get('OSHMC_JOBS', '0')) or os.cpu_count() or 4
    ths = [threading.Thread(target=worker) for _ in range(n)]
    def killall(*a):
        stop.set()
        for p in list(procs):
            p.kill()
    for t in ths: t.start()
    while any(t.is_alive() for t in ths):
        if stop.is_set() and not keep_going:
            killall()
        time.sleep(0.05)
    for t in ths: t.join()
    subprocess.run(['rm', '-rf', tmp])
    return dict(runs=runs, build_s=tb, wall=time.time() - t0)

KNOWN = load_known()
def known_for(prop, r):
    for k in KNOWN:
        if k.get('status') == 'known' and k['property'] == prop and fnmatch.fnmatchcase(r['name'], k['run']) and k['message'] in r['res'].get('message', ''):
            return k
    return None

def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else 'quick')
    opts = sys.argv[3:]
    verbose = '-v' in opts
    keep = '-k' in opts
    filt = next((o[2:] for o in opts if o.startswith('-f')), None)
    res = execute(prop, tier, filt, verbose, keep)
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, deterministic_steps=0, explorations=0, explorations_exhausted=0, distinct_outcomes=0)
    samples, viol, known, bad, details = [], [], [], [], []
    for r in res['runs']:
        x = r.get('res')
        if not x:
            x = dict(status='skipped', message='stopped after the first violation')
        st = x['status']
        d = dict(run=r['name'], status=st)
        if st in ('ok', 'violation'):
            cov['states'] += x['states']; cov['transitions'] += x['transitions']; cov['deterministic_steps'] += x['det_steps']
            cov['traces_validated_against_impl'] += x['terminals']; cov['distinct_outcomes'] += x['outcomes_n']
            cov['explorations'] += 1; cov['explorations_exhausted'] += bool(x['exhaustive'])
            d.update(states=x['states'], transitions=x['transitions'], executions_ended=x['terminals'], depth=x['depth'], exhausted=x['exhaustive'], outcomes=x['outcomes_n'], wall_s=x['wall'])
            if len(samples) < 12:
                samples.append('%s: %d states, %d transitions, depth %d, outcomes %s' % (r['name'], x['states'], x['transitions'], x['depth'], '; '.join(x['outcomes'][:4])[:200]))
        if st == 'violation':
            k = known_for(prop, r)
            (known if k else viol).append((r, x, k))
        elif st in ('internal', 'skipped') and r.get('res'):
            bad.append('%s: %s' % (r['name'], x.get('message', '')[:300]))
            d['message'] = x.get('message', '')[:300]
        details.append(d)
    cov['exhaustive'] = bool(cov['explorations'] and cov['explorations'] == cov['explorations_exhausted'] and not bad)
    cov['samples'] = samples or ['none']
    cov['runs'] = details
    if bad or res.get('build_error'):
        cov['inconclusive'] = ([res['build_error']] if res.get('build_error') else []) + bad
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=R.LEVEL, coverage=cov,
              assumptions=R.ASSUMPTIONS, wall_s=round(res['wall'], 2), violations=len(viol))
    os.makedirs('evidence', exist_ok=True)
    with open('evidence/%s.json' % prop, 'w') as f:
        json.dump(ev, f, indent=1)
    for r, x, k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if res.get('build_error'):
        print('INCONCLUSIVE property=%s the library could not be built for the explorer:\n%s' % (prop, res['build_error'][-1500:]))
    for b in bad:
        print('INCONCLUSIVE property=%s %s' % (prop, b))
    for r, x, k in viol[:1]:
        os.makedirs('evidence/replay', exist_ok=True)
        path = os.path.join(HERE, 'evidence', 'replay', '%s.json' % prop)
        rp = r['replay']
        rp['property'] = prop
        rp['variant'] = r.get('variant', 'base')
        rp['run'] = r['name']
        rp['how'] = 'python3 %s/replay.py %s' % (HERE, path)
        json.dump(rp, open(path, 'w'), indent=1)
        print('%s: %s' % (r['name'], x['message']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    print('%s %s: %d explorations (%d exhausted), %d states, %d transitions, %.1f s' % (prop, tier, cov['explorations'], cov['explorations_exhausted'], cov['states'], cov['transitions'], res['wall']))
    if not viol and not cov['explorations']:
        sys.exit(2) # nothing was explored: no answer
    sys.exit(1 if viol else 0)

if __name__ == '__main__':
    main()
