"""Generate seeded/<id>/ (patch.diff, demo.sh, x.c, meta.json) from tools/seeds_*.py.

Each entry: dict(id, prop, edits=[(file, old, new)], n (PEs), src (C program), needs, breaks, env, timeout)
"""
import os, subprocess, json, sys, tempfile, shutil, glob, importlib.util
V = '/verif'; R = '/repo'
DEMO = '''#!/bin/bash
# Runs x.c on the installed library; exit 0: correct, nonzero: the property is broken.
. /opt/vp/env.sh 2>/dev/null
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
i=/repo/_build/inst
mpicc.openmpi -g -I$i/include "$d/x.c" $i/lib/liboshmpi.a -lpthread -lm -o "$t/x" || exit 98
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
%(env)scd "$t"
timeout -k 5 %(timeout)d mpiexec.openmpi --oversubscribe --bind-to none -n %(n)d "$t/x"
'''
PRE = '''#include <shmem.h>
#include <shmemx.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "PE %d: %s:%d: %s\\n", shmem_my_pe(), __FILE__, __LINE__, #c); _exit(1); } } while (0)
'''
def load():
    out = []
    for f in sorted(glob.glob(V + '/tools/seeds_*.py')):
        s = importlib.util.spec_from_file_location('m', f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
        out += m.SEEDS
    ids = [s['id'] for s in out]
    assert len(set(ids)) == len(ids), ids
    return out
def gen(s):
    d = f"{V}/seeded/{s['id']}"; os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    try:
        for f, old, new in s['edits']:
            p = f'{t}/b/{f}'
            if not os.path.exists(p):
                for x in 'ab':
                    os.makedirs(os.path.dirname(f'{t}/{x}/{f}'), exist_ok=True)
                    shutil.copy(f'{R}/{f}', f'{t}/{x}/{f}')
            c = open(p).read()
            assert c.count(old) == 1 or s.get('first') and old in c, (s['id'], f, c.count(old), old)
            open(p, 'w').write(c.replace(old, new, 1))
        r = subprocess.run(['diff', '-ru', 'a', 'b'], cwd=t, capture_output=True, text=True)
        out = '\n'.join(l.split('\t')[0] if l.startswith(('---', '+++')) else l for l in r.stdout.split('\n') if not l.startswith('diff -ru'))
        open(d + '/patch.diff', 'w').write(out)
    finally:
        shutil.rmtree(t)
    env = ''.join(f"export {k}={v}\n" for k, v in s.get('env', {}).items())
    open(d + '/demo.sh', 'w').write(DEMO % dict(env=env, timeout=s.get('timeout', 60), n=s['n']))
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/x.c', 'w').write(PRE + s['src'].lstrip('\n'))
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    open(d + '/meta.json', 'a').write('\n')
    return d
