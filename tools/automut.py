#!/usr/bin/env python3
"""Systematic mutation experiment: generic edits (a statement removed, a condition negated, a comparison or constant shifted) of the
library's sources, each run through the quick checks in order until one reports it.   automut.py REPOCOPY VERIFCLONE SEED COUNT [FILEREGEX]
(development aid; no check uses it)"""
import re, sys, os, random, subprocess, time, hashlib
rc, vc, seed, count = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
rx = sys.argv[5] if len(sys.argv) > 5 else '.'
I = 'src/internal/'; S = 'src/shmem/'
FILES = {
 I+'am_impl.c': 'P01 P03 P08 P25 P07 P27', I+'am_impl.h': 'P03 P10 P08 P04 P27', I+'am_pre.h': 'P01 P07', I+'am_progress_impl.h': 'P08 P18 P14 P15 P16 P17 P10',
 I+'amo_am_impl.c': 'P07 P06 P08 P03 P27', I+'amo_am_impl.h': 'P07 P06 P03 P27', I+'amo_impl.h': 'P07 P06 P02 P03 P09', I+'coll_activeset_impl.h': 'P14 P15 P16 P17 P10 P11 P18 P27',
 I+'coll_impl.h': 'P14 P15 P16 P17 P11 P10 P18 P19', I+'coll_impl.c': 'P18 P25 P27', I+'lock_impl.h': 'P12 P13 P08', I+'mem_impl.c': 'P20 P21',
 I+'order_impl.h': 'P03 P04 P05 P10 P24', I+'p2p_impl.h': 'P09 P08', I+'rma_am_impl.c': 'P01 P03 P08 P27', I+'rma_am_impl.h': 'P01 P02 P03 P05 P08 P27',
 I+'rma_impl.h': 'P01 P02 P03 P05 P28 P23', I+'setup_impl.c': 'P26 P25 P28 P01 P07 P20 P27', I+'space_impl.c': 'P22 P23 P24 P21 P27 P03',
 I+'strided_impl.h': 'P30 P01 P16 P27', I+'strided_impl.c': 'P30 P25 P27', I+'team_impl.c': 'P19 P27', I+'util/mem_pool.c': 'P22', I+'util/symm_mem.c': 'P26 P20',
 S+'coll.c': 'P10 P11 P03', S+'coll_activeset.c': 'P14 P15 P16 P10 P11', S+'context.c': 'P24 P05', S+'lock.c': 'P12', S+'mem.c': 'P20 P21', S+'order.c': 'P03 P04 P05',
 S+'p2p.c': 'P09', S+'rma.c': 'P01 P05 P24', S+'setup.c': 'P28 P25 P19', S+'team.c': 'P19 P28', 'src/shmemx/space.c': 'P22 P23 P24', S+'rma_typed.c.tpl': 'P01 P03 P05 P24',
 S+'rma_sized.c.tpl': 'P01 P03 P05', S+'amo_std_typed.c.tpl': 'P07 P06 P24', S+'amo_bitws_typed.c.tpl': 'P07 P06', S+'amo_ext_typed.c.tpl': 'P07 P06', S+'p2p_typed.c.tpl': 'P09 P08',
 S+'coll_typed.c.tpl': 'P14 P15 P16', 'src/include/oshmpi_impl.h': 'P28 P01 P12 P26',
}
files = []
for d, _, ns in os.walk(rc + '/src'):
    pass
def mutants(path):
    L = open(path).read().split('\n'); out = []
    i = 0; skip = 0; start = 40
    while i < len(L):
        l = L[i]; s = l.strip()
        if s.startswith('#') or s.startswith(('/*', '*', '//')) or not s or any(w in l for w in ('DBGMSG', 'ASSERT', 'PRINTF', 'printf', 'ERR_ABORT')):
            # skip whole statement
            if any(w in l for w in ('DBGMSG', 'ASSERT', 'PRINTF', 'printf', 'ERR_ABORT')):
                while i < len(L) and not L[i].rstrip(' \\').endswith((';', ')', '}')): i += 1
            i += 1; continue
        body = l.startswith(' ')
        bs = l.rstrip().endswith('\\'); core = l.rstrip().rstrip('\\').rstrip()
        # statement removal (possibly over several lines)
        if body and re.match(r'\s+([A-Za-z_][\w\.\->\[\]\(\)\* ]*(=|\+=|\|=|&=)[^=]|[A-Za-z_]\w*\(|\*\w+ =|\w+(\+\+|--);|break;|continue;|goto)', core) and not re.match(r'\s+(if|for|while|switch|return|else|do|sizeof)\b', core) \
           and not re.match(r'\s+(const |static |unsigned |struct )*(int|char|void|size_t|long|MPI_\w+|OSHMPI_\w+_t|uint\w+|shmem\w*_t|ptrdiff_t|bool|TYPE|double) +\*?\w', core):
            j = i
            while j < len(L) and j < i + 8 and not L[j].rstrip().rstrip('\\').rstrip().endswith((';', '{', '}')): j += 1
            if j < len(L) and L[j].rstrip().rstrip('\\').rstrip().endswith(';'):
                out.append(('del', i, j, None))
        m = re.search(r'\bif \((.*)\)( \{)?$', core)
        if body and m and core.count('(') == core.count(')'):
            out.append(('neg', i, i, core.replace('if (' + m.group(1) + ')', 'if (!(' + m.group(1) + '))') + (' \\' if bs else '')))
        if body:
            for a, b in ((' < ', ' <= '), (' <= ', ' < '), (' > ', ' >= '), (' >= ', ' > '), (' && ', ' || '), (' || ', ' && '), (' + ', ' - '), (' - ', ' + '), (' == ', ' != '), (' != ', ' == '), (' * ', ' + ')):
                for mm in re.finditer(re.escape(a), core):
                    if a == ' * ' and re.search(r'[\w] \* \w+( =|;|,|\))', core): continue
                    out.append(('op' + a.strip() + b.strip(), i, i, core[:mm.start()] + b + core[mm.end():] + (' \\' if bs else '')))
            for mm in re.finditer(r'(?<![\w.])([01])(?![\w.])', core):
                out.append(('const', i, i, core[:mm.start()] + str(1 - int(mm.group(1))) + core[mm.end():] + (' \\' if bs else '')))
        i += 1
    return L, out
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, errors='replace', **k)
env = dict(os.environ, OSHMC_REPO=rc)
def code(v='base'):
    r = sh("python3 -c \"import sys;sys.path.insert(0,'mc');import build as B;print(B.build(['%s'])[1]['%s'])\"" % (v, v), cwd=vc, env=env)
    so = r.stdout.strip().split('\n')[-1]
    if not so.endswith('.so'): return None
    d = sh(f"objdump -d --no-show-raw-insn {so} | grep -v 'file format' | md5sum; objdump -s -j .data -j .rodata -j .data.rel.ro {so} | grep -v 'file format' | md5sum").stdout
    return d
sh(f'git -C {rc} checkout -q -- .')
ref = code()
allm = []
for f in FILES:
    if not os.path.exists(f'{rc}/{f}') or not re.search(rx, f): continue
    L, out = mutants(f'{rc}/{f}')
    allm += [(f, x) for x in out]
random.Random(seed).shuffle(allm)
print(len(allm), 'mutants', flush=True)
n = miss = 0
for f, (k, i, j, new) in allm:
    if n >= count: break
    sh(f'git -C {rc} checkout -q -- .')
    if re.search('async|THREAD|pthread|cuda|_ze_|GPU', '\n'.join(open(f'{rc}/{f}').read().split('\n')[max(0, i-1):j+2])): continue
    L = open(f'{rc}/{f}').read().split('\n'); old = '\n'.join(L[i:j+1])
    for q in range(i, j+1):
        bs = L[q].rstrip().endswith('\\'); L[q] = ((' ;' if q == i else ' ') + (' \\' if bs else '')) if new is None else new
    open(f'{rc}/{f}', 'w').write('\n'.join(L))
    c = code()
    if c is None or c == ref: continue
    n += 1; t0 = time.time(); res = 'MISSED'; log = []
    for p in FILES[f].split():
        r = sh(f'python3 run_check.py {p} quick', cwd=vc, env=env)
        v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        if r.returncode == 1 and v: res = p; break
        if r.returncode not in (0, 1): res = f'{p}:rc{r.returncode}'; break
    if res == 'MISSED': miss += 1
    print(f'{n} {res} {time.time()-t0:.0f}s {f}:{i+1} {k}' + ('' if res != 'MISSED' else '   | ' + re.sub(r'\s+', ' ', old)[:120] + '   ->  ' + re.sub(r'\s+', ' ', new or '(removed)')[:120]), flush=True)
sh(f'git -C {rc} checkout -q -- .')
print('done', n, 'missed', miss)
