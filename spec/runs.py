"""The explorations that decide each property."""
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'MPI follows the MPI-3.1 standard as simulated by mc/mockmpi.cpp (unified memory model, accumulates mutually atomic, progress of the MPI library itself independent of the callers)',
    'the explored executions run the compiled library of the current tree; code between two scheduling points (MPI calls that can block or poll) runs without preemption unless stated',
    'up to 9 PEs, host memory only',
]
AMO = ({}, {'OSHMPI_AMO_DBG_MODE': 'direct'})
RMAM = ({}, {'OSHMPI_RMA_DBG_MODE': 'am'})
def modes(*ms):
    out = [{}]
    for m in ms:
        out = [dict(a, **b) for a in out for b in m]
    return out
SEQ = ('eager', 'lazy')
P = {}
def add(props, scen, tier='quick', **kw):
    for p in props.split():
        P.setdefault(p, []).append(dict(scen=scen, tier=tier, **kw))
def runs_for(prop, tier):
    return [r for r in P.get(prop, []) if r['tier'] == 'quick' or tier == 'thorough']

# ---- P01 / P30
for m in modes(RMAM):
    for s in SEQ:
        add('P01', 'rma_types', env=m, sched=s, cost=20)
    add('P01', 'rma_types', env=m, sched='rr', npe=3, args=dict(tsub=1), cost=5)
    add('P01', 'rma_types', env=m, sched='lazy', args=dict(space=1), cost=10)
    add('P01', 'rma_edges', env=m, sched='lazy', cost=5)
    add('P01', 'rma_edges', env=dict(m, SHMEM_SYMMETRIC_SIZE='20000'), sched='eager', npe=3, flags=['--page', 4096], cost=5)
    add('P01', 'rma_types', env=m, sched='eager', args=dict(space=3, tsub=1), cost=5)
    add('P01', 'rma_types', env=m, sched='eager', npe=3, args=dict(space=2, tsub=1), cost=5)
    add('P01', 'rma_types', env=m, sched='lazy', npe=5, args=dict(tsub=1), cost=5)
    add('P01', 'rma_types', env=m, sched='lazy', npe=9, args=dict(tsub=1), cost=5)
    for s in SEQ:
        add('P01', 'rma_sizes', variant='big', env=dict(m, SHMEM_SYMMETRIC_SIZE='262144'), sched=s, cost=20)
    for s in SEQ:
        add('P30', 'rma_strided_history', env=m, sched=s, args=dict(depth=3), cost=5)
    for v in ('nocache',):
        add('P30', 'rma_strided_history', variant=v, env=m, sched='lazy', args=dict(depth=2))
    add('P30', 'rma_strided_history', env=m, sched='lazy', args=dict(depth=2, prefill=80, heap=1))
    add('P30', 'rma_strided_history', env=m, sched='eager', args=dict(depth=2, self=1, heap=1))
    add('P30', 'rma_strided_history', env=m, sched='lazy', args=dict(depth=4), cost=30)
    add('P30', 'rma_strided_wide', env=m, sched='eager', cost=20)
    add('P30', 'rma_strided_wide', env=m, sched='eager', args=dict(depth=1, distinct=600, self=1), flags=['--max-steps', 5000000], cost=20)

for m in modes(AMO, RMAM):
    am = m.get('OSHMPI_RMA_DBG_MODE') == 'am'
    add('P01', 'rma_conc', npe=3, env=m, args=dict(ops=1573133 if am else 2097169), cost=20)
add('P01', 'rma_conc', npe=4, env=RMAM[1], args=dict(ops=1 + 8), cost=30, tier='thorough', max_secs=600, max_states=9000000, max_mem=8000)
add('P01', 'rma_conc', npe=4, env=RMAM[1], args=dict(ops=1 + 8), sched='lazy', cost=2)

# ---- P02
BOTH = modes(AMO, RMAM)
for m in BOTH:
    for s in SEQ + ('rr',):
        add('P02', 'local_completion', env=m, sched=s)
    add('P02', 'local_completion', env=m, sched='lazy', flags=['--rndv'])
    add('P02', 'local_completion', env=m, args=dict(explore=1), cost=20)
    add('P02', 'get_fresh', env=m)
add('P02', 'local_completion', env={'OSHMPI_RMA_DBG_MODE': 'am'}, args=dict(explore=1), flags=['--rndv'], cost=20)
for m in modes(RMAM):
    add('P02', 'rma_types', env=m, sched='lazy', args=dict(reuse=1), cost=20)
    add('P02', 'rma_sizes', variant='big', env=dict(m, SHMEM_SYMMETRIC_SIZE='262144'), sched='lazy', flags=['--rndv'], args=dict(reuse=1, full=0), cost=20)
# ---- P03
for m in BOTH:
    for s in ('lazy', 'eager'):
        add('P03', 'quiet_hist', env=m, sched=s, args=dict(depth=3, usectx=int(s == 'eager')), cost=10)
    add('P03', 'quiet_hist', env=m, sched='lazy', args=dict(depth=2, space=1), cost=5)
    add('P03', 'quiet_hist', env=m, sched='lazy', npe=3, args=dict(depth=2, space=2, usectx=1), cost=5)
    add('P03', 'quiet_hist', env=m, sched='lazy', args=dict(depth=1, space=3))
    add('P03', 'quiet_hist', env=m, sched='lazy', args=dict(depth=1, space=1, usectx=1, unatt=1))
    add('P03', 'quiet_explore', env=m, args=dict(depth=2, first=1), cost=10)
    add('P04', 'fence_spread', env=m, npe=3, cost=10)
    add('P04', 'fence_spread', env=m, npe=4, args=dict(full=1), cost=40, **({} if m.get('OSHMPI_RMA_DBG_MODE') != 'am' else dict(tier='thorough', max_secs=600, max_states=9000000, max_mem=8000)))
    add('P03', 'quiet_spread', env=m, sched='lazy', npe=4, cost=10)
    add('P03', 'quiet_spread', env=m, sched='lazy', npe=9, cost=20)
    add('P04', 'fence_spread', env=m, sched='lazy', npe=9, cost=5)
    add('P03', 'quiet_all', env=m, sched='lazy', npe=9, cost=5)
    add('P09', 'p2p_wait', variant='memy', env=m, sched='lazy', npe=9, cost=5)
    add('P08', 'progress', env=m, sched='lazy', npe=9, args=dict(explore=0), cost=5)
    add('P02', 'local_completion', env=m, sched='lazy', npe=9, cost=2)
    add('P05', 'ctx_quiet', env=m, sched='lazy', npe=9, args=dict(space=1, ctx=1, spsize=2048), cost=10)
    add('P24', 'ctx_seq', env=m, sched='lazy', npe=9, args=dict(depth=3), cost=10)
    add('P07', 'amo_types', env=m, sched='eager', npe=9, args=dict(vals=1), cost=10)
    add('P23', 'space_life', env=m, sched='lazy', npe=9, args=dict(depth=4), cost=10)
    add('P21', 'alloc_complete', env=m, sched='lazy', npe=9, args=dict(space=1, spsize=4096), cost=5)
    add('P21', 'free_sync', env=m, sched='lazy', npe=9, args=dict(space=1, spsize=4096), cost=5)
    add('P10', 'quiet_spread', env=m, sched='lazy', npe=4, args=dict(mode=1), cost=10)
    add('P10', 'quiet_spread', env=m, sched='lazy', npe=5, args=dict(mode=2), cost=10)
    add('P03', 'quiet_third', env=m, npe=3, cost=10)
    add('P03', 'quiet_hist', env=m, sched='lazy', npe=1, args=dict(depth=2, space=1), cost=2)
    add('P03', 'quiet_hist', env=m, sched='lazy', args=dict(depth=2, space=1, nctx=0, onlysp=1), cost=5)
    add('P03', 'quiet_hist', env=m, sched='lazy', args=dict(depth=1, space=2, nctx=0, opsp=2))
    add('P03', 'quiet_hist', env=m, sched='lazy', args=dict(depth=1, space=2, nctx=3, opsp=2, usectx=1))
# ---- P04
for m in BOTH:
    add('P04', 'fence_order', env=m, cost=10)
    add('P04', 'fence_order_ctx', env=m, args=dict(space=1, ctx=1), cost=10)
    add('P04', 'fence_order_ctx', env=m, args=dict(space=2, ctx=2, nctx=3, opsp=2), cost=10)
    add('P04', 'fence_order', env=m, args=dict(space=1, mix=1), cost=10)
    add('P04', 'fence_order', env=m, args=dict(space=1, nctx=0, mix=1), cost=10)
    add('P04', 'fence_order', env=m, args=dict(space=2, nctx=0, mix=1, opsp=2), cost=10)
    add('P04', 'fence_order', env=m, npe=3, args=dict(space=3, nctx=1, mix=1), cost=10)
    add('P04', 'fence_order', env=m, args=dict(space=1, nctx=1, mix=1, unatt=1), cost=10)
    add('P04', 'fence_order', env=m, args=dict(pre=1), cost=10)
    add('P04', 'fence_order', env=m, args=dict(pre=1, mix=1, space=2), cost=10)
    add('P04', 'fence_chain', env=m, args=dict(space=1), cost=10)
    add('P04', 'fence_chain', env=m, npe=3, args=dict(len=2), cost=10)
    add('P04', 'fence_chain', env=m, npe=3, args=dict(len=2, origins=2, nt=2), cost=10, tier='thorough', max_states=12000000, max_mem=6000)
    add('P04', 'fence_chain', env=m, npe=3, args=dict(len=3, origins=1), cost=10, tier='thorough', max_states=12000000, max_mem=6000)
    add('P04', 'fence_chain', env=m, npe=4, args=dict(len=2, origins=1, space=1), cost=10, tier='thorough')
    add('P04', 'fence_chain', env=m, npe=2, args=dict(len=4, origins=1, space=0), cost=10, tier='thorough')
# ---- P05
for m in BOTH:
    for s in ('lazy', 'eager'):
        add('P05', 'ctx_quiet', env=m, sched=s, args=dict(space=1, ctx=1), cost=10)
    add('P05', 'fence_order_ctx', env=m, args=dict(space=1, ctx=1), cost=10)
    for p in ('P05', 'P24'):  # every typed, sized and untyped entry point with a context argument
        add(p, 'rma_types', env=m, sched='lazy', args=dict(space=1), cost=10)
        add(p, 'amo_types', env=m, sched='lazy', args=dict(space=1, vals=1), cost=10)
# every typed and sized entry point completes at quiet, fence (+ flag) and barrier
for m in BOTH:
    am = m.get('OSHMPI_RMA_DBG_MODE') == 'am'
    aa = 'OSHMPI_AMO_DBG_MODE' not in m
    for p, fin, sc in (('P03', 0, 'lazy'), ('P04', 2, 'lifo'), ('P04', 3, 'lifo'), ('P10', 1, 'lazy')):
        if fin >= 2 or aa: add(p, 'rma_types', env=m, sched=sc, args=dict(fin=fin), cost=10)
        if fin >= 2 or not am: add(p, 'amo_types', env=m, sched=sc, args=dict(fin=fin, vals=2), cost=10)
    for fin in (2, 3):
        add('P05', 'rma_types', env=m, sched='lifo', args=dict(fin=fin, space=2), cost=10)
        add('P05', 'amo_types', env=m, sched='lifo', args=dict(fin=fin, space=1, vals=1), cost=10)
# variant memy: every plain load and store of the library to symmetric memory is a scheduling point; --split-acc: an accumulate reads and writes in two steps
SP = ['--split-acc']
# ---- P06
for m in AMO:
    add('P06', 'amo_atomic', variant='memy', flags=SP, env=m, args=dict(per=2, set=2), cost=20)
    add('P06', 'amo_atomic', variant='memy', flags=SP, env=m, args=dict(per=2, set=3, quiet=1, heap=1), cost=20)
    add('P06', 'amo_atomic', variant='memy', flags=SP, env=m, args=dict(per=1, set=0, w=4))
    add('P06', 'amo_atomic', variant='memy', flags=SP, env=m, args=dict(per=1, set=1, heap=1))
    add('P06', 'amo_atomic', variant='memy', flags=SP, env=m, npe=3, args=dict(per=1, set=4), cost=20)
    add('P06', 'amo_atomic', variant='memy', flags=SP, env=m, npe=3, args=dict(per=1, set=5, tgt=2, w=4), cost=20)
    add('P06', 'amo_atomic', variant='memy', flags=SP, env=m, npe=3, args=dict(per=1, set=1, tgt=2, actors=2), cost=20)
    add('P06', 'amo_atomic', variant='memy', flags=SP, env=m, args=dict(per=1, set=6), cost=5)
    for ty, w, st in ((0, 4, 4), (7, 8, 4), (12, 4, 7), (13, 8, 7)):  # int, int64_t, float, double
        add('P06', 'amo_atomic', variant='memy', flags=SP, env=m, args=dict(per=1 + (st == 7 and 'direct' in m.values()), set=st, ty=ty, w=w), cost=5)
    add('P06', 'amo_atomic_nbi', variant='memy', flags=SP, env=m, cost=5)
    add('P06', 'amo_atomic', variant='memy', flags=SP, env=m, npe=3, args=dict(per=1, set=0), tier='thorough', max_states=12000000, max_mem=6000)
    add('P06', 'amo_atomic', variant='memy', flags=SP, env=m, npe=3, args=dict(per=1, set=1, tgt=1), tier='thorough', max_states=12000000, max_mem=6000)
    add('P06', 'amo_atomic', variant='memy', flags=SP, env=m, args=dict(per=3, set=4), tier='thorough', max_states=12000000, max_mem=6000)
# ---- P07
for m in AMO:
    for s in SEQ:
        add('P07', 'amo_types', env=m, sched=s, cost=20)
        add('P07', 'amo_types', env=m, sched=s, args=dict(space=1, vals=3), cost=10)
    add('P07', 'amo_types', env=m, sched='lazy', npe=3, args=dict(vals=2), cost=5)
# ---- P09
for s in SEQ:
    add('P09', 'p2p_test', variant='memy', sched=s)
for m in AMO:
    for s in SEQ + ('rr',):
        add('P09', 'p2p_wait', variant='memy', env=m, sched=s, args=dict(last=int(s == 'eager'), heap=int(s == 'rr')))
    add('P09', 'p2p_wait', variant='memy', env=m, sched='lazy', npe=3, args=dict(heap=2))
for m in BOTH:
    add('P09', 'p2p_poll', variant='memy', flags=SP, env=m, cost=5)
# ---- P10
for m in BOTH:
    for s in SEQ + ('rr',):
        add('P10', 'barrier_seq', env=m, sched=s, npe=3, args=dict(rounds=2), cost=5)
    add('P10', 'barrier_seq', env=m, sched='lazy', npe=4, args=dict(rounds=1, ops=2), cost=5)
    add('P10', 'barrier_seq', env=m, sched='lazy', npe=2, args=dict(rounds=2, ops=2, whole=2, space=1, dt=1), cost=5)
    add('P10', 'barrier_explore', env=m, args=dict(rounds=2, whole=1, dt=1), cost=5)
    add('P10', 'barrier_explore', env=m, npe=3, args=dict(rounds=1, dt=2), cost=5)
    add('P10', 'barrier_seq', env=m, sched='lazy', npe=5, args=dict(rounds=1), cost=5)
    for n in (7, 8, 9):
        add('P10', 'barrier_seq', env=m, sched='lazy', npe=n, args=dict(rounds=1, op=0 if n & 1 else 9), cost=2)
    add('P10', 'barrier_seq', env=m, sched='lazy', npe=1, args=dict(rounds=2, ops=2, whole=2), cost=2)
    add('P10', 'barrier_seq', env=m, sched='lazy', npe=2, args=dict(rounds=1, ops=2, whole=2, space=2, nctx=0, opsp=2), cost=2)
    add('P10', 'barrier_seq', env=m, sched='lazy', npe=2, args=dict(rounds=1, ops=2, whole=2, space=1, unatt=1), cost=2)
# ---- P11
for s in SEQ + ('rr',):
    add('P11', 'sync_seq', sched=s, npe=3, args=dict(rounds=2, how=2), cost=5)
    add('P11', 'sync_seq', sched=s, npe=4, args=dict(rounds=1), cost=5)
    add('P11', 'sync_seq', sched=s, npe=2, args=dict(rounds=3, world=0), cost=5)
add('P11', 'sync_seq', sched='lazy', npe=5, args=dict(rounds=1, how=0), cost=5)
for n in (7, 8, 9):
    for h in (0, 2):
        add('P11', 'sync_seq', sched='lazy' if n & 1 else 'eager', npe=n, args=dict(rounds=1, how=h), cost=2)
add('P11', 'sync_seq', sched='lazy', npe=1, args=dict(rounds=2), cost=2)
add('P11', 'sync_explore', npe=3, args=dict(rounds=1), cost=5)
add('P11', 'sync_explore', npe=2, args=dict(rounds=2), cost=5)
# ---- P12
add('P12', 'lock_mutex', variant='memy', flags=SP, args=dict(rounds=1, again=1), cost=5)
add('P12', 'lock_mutex', variant='memy', sched='lazy', npe=4, args=dict(rounds=1, again=1, mask=12), cost=5)
add('P12', 'lock_mutex', variant='memy', flags=SP, args=dict(rounds=2), cost=20)
add('P12', 'lock_mutex', variant='memy', flags=SP, args=dict(rounds=2, heap=1), cost=20)
add('P12', 'lock_mutex', variant='memy', flags=SP, npe=3, args=dict(rounds=1), cost=20)
add('P12', 'lock_mutex', variant='memy', flags=SP, npe=3, args=dict(rounds=2, actors=2, **{'from': 1}), cost=20)
add('P12', 'lock_mutex', variant='memy', flags=SP, npe=4, args=dict(rounds=1, mask=10), cost=20)
add('P12', 'lock_mutex', variant='memy', flags=SP, npe=4, args=dict(rounds=2, mask=12, mode=0), cost=20)
add('P12', 'lock_mutex', variant='memy', flags=SP, npe=5, args=dict(rounds=1, mask=0x18, heap=1, mode=0), cost=20)
add('P12', 'lock_phases', variant='memy', flags=SP, npe=3, args=dict(phases=2, actors=2), cost=30)
add('P12', 'lock_phases', variant='memy', flags=SP, npe=2, args=dict(phases=3, actors=2), cost=30)
for s in SEQ + ('rr',):
    add('P12', 'lock_mutex', variant='memy', npe=6, sched=s, args=dict(rounds=1), cost=5)
    add('P12', 'lock_mutex', variant='memy', npe=9, sched=s, args=dict(rounds=2, mask=0x1a4 if s == 'lazy' else 0x13), cost=5)
    add('P12', 'lock_phases', variant='memy', npe=5, sched=s, args=dict(phases=2, actors=3), cost=10)
    add('P12', 'lock_phases', variant='memy', npe=9, sched=s, args=dict(phases=2, actors=2), cost=10)
for n in (2, 3):
    add('P12', 'lock_test_nonblocking', variant='memy', flags=SP, npe=n, cost=5)
    add('P12', 'lock_two', variant='memy', flags=SP, npe=n, cost=5)
for n in (4, 6, 9):
    for s in SEQ + ('rr',):
        add('P12', 'lock_test_nonblocking', variant='memy', npe=n, sched=s, cost=2)
# ---- P13
for m in BOTH:
    add('P13', 'lock_counter', variant='memy', flags=SP, env=m, args=dict(rounds=1), cost=5)
    add('P13', 'lock_counter', variant='memy', flags=SP, env=m, args=dict(rounds=1, local=1, heap=1), cost=5)
    add('P13', 'lock_counter', variant='memy', flags=SP, env=m, args=dict(rounds=2, mode=1, hows=3), cost=5)
    add('P13', 'lock_counter', variant='memy', flags=SP, env=m, npe=3, args=dict(rounds=1, actors=2, owner=2), cost=5)
    add('P13', 'lock_counter', variant='memy', env=m, npe=4, sched='lazy', args=dict(rounds=1), cost=10)
    add('P13', 'lock_counter', variant='memy', env=m, npe=9, sched='lazy', args=dict(rounds=2, hows=1), cost=5)
# ---- P14-P17
for p, sc in (('P14', 'coll_bcast'), ('P15', 'coll_collect'), ('P15', 'coll_fcollect'), ('P16', 'coll_a2a'), ('P16', 'coll_a2as'), ('P17', 'coll_reduce')):
    for s in SEQ:
        add(p, sc, npe=3, sched=s, cost=10)
        add(p, sc, npe=4, sched=s, flags=['--ppn', 2], args=dict(few=1, shifts=1), cost=10)
    add(p, sc, npe=5, sched='lazy', args=dict(shifts=1), cost=20)
    add(p, sc, npe=6, sched='eager', args=dict(few=1, shifts=1), flags=['--ppn', 3], cost=10)
    for n, sd in ((7, 'eager'), (8, 'lazy'), (9, 'lazy'), (9, 'eager')):
        r = sc == 'coll_reduce'
        if not r or n != 8:
            add(p, sc, npe=n, sched=sd, args=dict(few=1, shifts=1) if r else dict(few=1), cost=10, **(dict(tier='thorough') if r and sd == 'eager' and n == 9 else {}))
    add(p, sc, npe=2, sched='rr', cost=5)
    add(p, sc, npe=2, args=dict(explore=1, few=1), cost=5)
for p, mask in (('P14', 1), ('P15', 6), ('P16', 24), ('P17', 32)):
    for s, n in (('eager', 2), ('lazy', 3)):
        add(p, 'coll_sizes', variant='big', npe=n, sched=s, env=dict(SHMEM_SYMMETRIC_SIZE='262144'), args=dict(kinds=mask), cost=20)
for p, k in (('P14', 0), ('P15', 1), ('P15', 2), ('P16', 3), ('P16', 4)):
    for n, s in ((2, 'eager'), (3, 'lazy')):
        add(p, 'coll_adj', npe=n, sched=s, args=dict(kind=k), cost=5)
for n, s in ((2, 'eager'), (3, 'lazy')):
    add('P17', 'reduce_adj', npe=n, sched=s, cost=5)
# ---- P18
for s in SEQ + ('rr',):
    add('P18', 'coll_seq', npe=3, sched=s, args=dict(depth=2, traffic=2), cost=10)
add('P18', 'coll_seq', npe=3, sched='eager', args=dict(depth=3), cost=60)
add('P18', 'coll_seq', npe=3, sched='lazy', args=dict(depth=3, kinds=0x0b9), cost=20)
for s in SEQ:
    add('P18', 'coll_seq', npe=4, sched=s, args=dict(depth=2), cost=20)
    add('P18', 'coll_seq', npe=5, sched=s, args=dict(depth=2, kinds=0x021 if s == 'eager' else 0x118), cost=20)
add('P18', 'coll_seq', npe=6, sched='eager', args=dict(depth=1, warm=1, traffic=0), cost=30)
add('P18', 'coll_seq', npe=9, sched='eager', args=dict(depth=1, warm=1, traffic=0), flags=['--max-comm', 104], cost=60)
add('P18', 'coll_seq', npe=8, sched='lazy', args=dict(depth=1, warm=1, traffic=0), flags=['--max-comm', 104], cost=60)
add('P18', 'coll_seq', npe=5, sched='lazy', args=dict(depth=1, warm=1), cost=30)
for p, k in (('P10', 1 << 5), ('P11', 1 << 6), ('P14', 1), ('P15', 6), ('P16', 24), ('P17', 1 << 7)):
    add(p, 'coll_seq', npe=6, sched='eager', args=dict(depth=1, warm=1, traffic=0, kinds=k), cost=20)
    add(p, 'coll_seq', npe=9, sched='lazy', args=dict(depth=1, warm=1, traffic=0, kinds=k), flags=['--max-comm', 104], cost=30)
add('P18', 'coll_seq', npe=2, args=dict(depth=2, explore=1, kinds=0x0ff), cost=20)
add('P18', 'coll_seq', npe=2, args=dict(depth=2, explore=1, kinds=0x721, traffic=0), cost=20)
add('P18', 'coll_seq', npe=3, args=dict(depth=2, explore=1, kinds=0x021, traffic=0), cost=20)
# ---- P08
for m in RMAM:
    for f in ([], ['--rndv']):
        add('P08', 'progress', env=m, args=dict(A=0), flags=f, cost=20)
        add('P08', 'progress', env=m, args=dict(A=1), flags=f, cost=20)
        for s in SEQ + ('rr',):
            add('P08', 'progress', npe=3, sched=s, env=m, args=dict(explore=0), flags=f, cost=5)
    for a in range(3):
        add('P08', 'progress', npe=3, env=m, args=dict(A=a, dist=1 + a % 2), cost=30, max_secs=300, max_states=3000000)

# ---- P20
for s in SEQ:
    add('P20', 'heap_seq', sched=s, args=dict(depth=4 if s == 'eager' else 3), cost=30)
    add('P20', 'heap_exhaust', sched=s, npe=3, cost=10)
    add('P20', 'heap_exhaust', sched=s, npe=9, cost=5)
    add('P22', 'space_exhaust', sched=s, npe=9, cost=5)
    add('P28', 'query_seq', sched=s, npe=9, args=dict(depth=3), cost=5)
for n, sd in ((2, 'eager'), (3, 'lazy')):
    add('P20', 'heap_hints', npe=n, sched=sd, cost=5)
add('P20', 'heap_seq', sched='lazy', npe=3, args=dict(depth=3, old=1), cost=10)
add('P20', 'heap_sizes', variant='big', sched='lazy', env={'SHMEM_SYMMETRIC_SIZE': '1048576'}, cost=60)
add('P20', 'heap_sizes', variant='big', sched='eager', env={'SHMEM_SYMMETRIC_SIZE': '1048576', 'OSHMPI_RMA_DBG_MODE': 'am'}, cost=60, tier='thorough')
add('P20', 'heap_many', variant='big', sched='eager', env={'SHMEM_SYMMETRIC_SIZE': '40000'}, cost=60)
add('P20', 'heap_many', variant='big', sched='lazy', npe=3, env={'SHMEM_SYMMETRIC_SIZE': '30000'}, cost=60)
add('P20', 'heap_seq', sched='lazy', args=dict(depth=4), cost=30, tier='thorough')
add('P20', 'heap_seq', sched='eager', args=dict(depth=5), cost=300, tier='thorough', max_secs=800, max_states=9000000, max_mem=8000)
for v in ('dynwin', 'fast', 'single'):
    add('P20', 'heap_seq', variant=v, sched='lazy', npe=3, args=dict(depth=3), cost=10, tier='thorough')
    add('P20', 'heap_exhaust', variant=v, sched='lazy', npe=3, cost=10, tier='thorough')
add('P20', 'heap_seq', sched='rr', npe=3, args=dict(depth=2), flags=['--skew', 1024], cost=10)
add('P20', 'heap_seq', sched='lazy', env={'SHMEM_SYMMETRIC_SIZE': '1000', 'OSHMPI_RMA_DBG_MODE': 'am'}, args=dict(depth=3, heap=1000), cost=10)
add('P20', 'heap_seq', sched='lazy', env={'SHMEM_SYMMETRIC_SIZE': '12000'}, args=dict(depth=3), cost=10)
for z in ('3500', '6000'):
    add('P20', 'heap_exhaust', sched='lazy', env={'OSHMPI_RMA_DBG_MODE': 'am', 'SHMEM_SYMMETRIC_SIZE': z}, flags=['--skew', 2048], cost=10)
# ---- P21
for m in BOTH:
    for s in SEQ:
        add('P21', 'alloc_complete', env=m, sched=s, npe=3, args=dict(space=1, spsize=4096), cost=5)
    add('P21', 'alloc_complete', env=m, args=dict(space=1, spsize=4096, explore=1), cost=10)
    add('P21', 'realloc_use', env=m, cost=10)
    if m == BOTH[0]:
        add('P21', 'realloc_use', env=m, npe=3, cost=60, tier='thorough', max_secs=600, max_states=9000000, max_mem=8000)
        add('P21', 'realloc_use', env=m, npe=3, sched='lazy')
        add('P21', 'realloc_use', env=m, npe=3, sched='eager')
    for sc in ('alloc_sync', 'free_sync', 'free_use'):
        add('P21', sc, env=m, args=dict(space=1, spsize=4096), cost=10)
        add('P21', sc, env=m, args=dict(space=1, spsize=4096), flags=['--rndv'], cost=10)
        add('P21', sc, env=m, npe=3, args=dict(space=1, spsize=4096), cost=30, tier='quick' if sc == 'free_use' and m != BOTH[1] and m != BOTH[3] else 'thorough', max_states=8000000, max_mem=6000)
        for s in SEQ:
            add('P21', sc, env=m, npe=3, sched=s, args=dict(space=1, spsize=4096), cost=5)
            add('P21', sc, env=m, npe=3, sched=s, variant='dynwin', args=dict(space=1, spsize=4096), cost=5, tier='thorough')
# ---- P22
add('P22', 'space_seq', sched='eager', args=dict(depth=4, nsp=1), cost=30)
add('P22', 'space_seq', sched='lazy', args=dict(depth=3, nsp=2), cost=30)
add('P22', 'space_seq', sched='eager', env=RMAM[1], args=dict(depth=2, nsp=2, sz=8192), cost=10)
add('P22', 'space_seq', sched='rr', npe=3, args=dict(depth=2, sz=3000), flags=['--skew', 1024], cost=10)
for fl in ([], ['--skew', 1024]):
    add('P22', 'space_seq', sched='eager', args=dict(depth=3, nsp=1, aligns=1), flags=fl, cost=20)
    add('P22', 'space_seq', sched='lazy', npe=3, args=dict(depth=2, nsp=2, aligns=1, sz=8192), flags=fl, cost=20)
add('P22', 'space_seq', sched='lazy', args=dict(depth=5, nsp=1), cost=100, tier='thorough', max_secs=800, max_states=9000000, max_mem=8000)
add('P22', 'space_seq', sched='eager', args=dict(depth=4, nsp=2), cost=100, tier='thorough', max_secs=800, max_states=9000000, max_mem=8000)
for s in SEQ:
    add('P22', 'space_exhaust', sched=s, npe=3, cost=10)
    add('P22', 'space_many', sched=s, args=dict(pages=40 if s == 'eager' else 70), cost=20)
    add('P22', 'space_seq', variant='dynwin', sched=s, args=dict(depth=3, nsp=1), tier='thorough')
# ---- P23
for m in BOTH:
    for s in SEQ:
        add('P23', 'space_life', sched=s, env=m, args=dict(depth=6), cost=20)
        for wm in (3, 6, 17, 70):
            add('P23', 'space_life', sched=s, env=m, args=dict(depth=4, warm=wm, ctxs=2), cost=10)
        add('P23', 'space_life', sched=s, env=m, args=dict(depth=8), cost=60, tier='thorough')
        add('P23', 'space_life', sched=s, env=m, npe=3, args=dict(depth=6, nsp=3), cost=60, tier='thorough')
        add('P23', 'space_life', sched=s, env=m, variant='dynwin', args=dict(depth=6), cost=20, tier='thorough')
    add('P23', 'space_life', sched='rr', npe=3, env=m, args=dict(depth=5, nsp=3, ctxs=1), cost=20)
    add('P23', 'space_explore', env=m, args=dict(again=1), cost=10)
    add('P23', 'space_explore', env=m, args=dict(again=1, other=1), flags=['--rndv'], cost=10)
    add('P23', 'space_explore', env=m, npe=3, args=dict(again=0), cost=40, tier='thorough' if m.get('OSHMPI_RMA_DBG_MODE') else 'quick')
# ---- P24
for m in AMO:
    for s in SEQ:
        add('P24', 'ctx_seq', sched=s, env=m, args=dict(depth=5), cost=20)
        add('P24', 'ctx_seq', sched=s, env=m, args=dict(depth=6), cost=60, tier='thorough')
    add('P24', 'ctx_many', sched='lazy', env=m, cost=15)
    add('P24', 'ctx_seq', sched='lazy', npe=3, env=m, args=dict(depth=3), cost=20)
for m in BOTH:
    add('P24', 'ctx_destroy_explore', env=m, args=dict(space=1, ctx=1, depth=1), cost=5)
    add('P24', 'ctx_destroy_explore', env=m, args=dict(space=2, ctx=1, depth=2), flags=['--rndv'], cost=15)
    add('P24', 'ctx_destroy_explore', env=m, npe=3, args=dict(space=1, ctx=1, depth=1, all=1), sched='lazy', cost=15)
    add('P24', 'ctx_destroy_explore', env=m, args=dict(space=1, ctx=1, depth=1, all=1), cost=30, tier='thorough')
# ---- P19
for s in SEQ:
    add('P19', 'team_seq', sched=s, npe=3, args=dict(depth=2, full=int(s == 'eager')), cost=20)
    add('P19', 'team_seq', sched=s, npe=3, args=dict(depth=2, full=int(s != 'eager')), cost=20, tier='thorough')
    add('P19', 'team_seq', sched=s, npe=2, args=dict(depth=3, full=0), cost=20, tier='thorough', max_secs=800, max_states=9000000, max_mem=8000)
    add('P19', 'team_seq', sched=s, npe=4, args=dict(depth=1), cost=10)
    add('P19', 'team_seq', sched=s, npe=6 if s == 'lazy' else 5, args=dict(depth=1), cost=10)
    add('P19', 'team_seq', sched=s, npe=9 if s == 'lazy' else 7, args=dict(depth=1), cost=10)
    add('P19', 'team_seq', sched=s, npe=8 if s == 'lazy' else 9, args=dict(depth=1, ppn=3), flags=['--ppn', 3], cost=10)
    add('P19', 'team_seq', sched=s, npe=4, args=dict(depth=2, ppn=2, full=0), flags=['--ppn', 2], cost=30)
add('P19', 'team_explore', npe=2, cost=5)
add('P19', 'team_explore', npe=3, cost=5)

# ---- P26
for s in ('eager', 'lazy'):
    add('P26', 'env_size', sched=s, flags=['--page', 4096], env={'SHMEM_SYMMETRIC_SIZE': None}, cost=10)
    add('P26', 'env_switches', sched=s, cost=20)
    add('P26', 'env_switches', sched=s, npe=3, args=dict(gpu=1), cost=10)
add('P26', 'env_size', sched='eager', npe=3, flags=['--page', 65536, '--skew', 65536], env={'SHMEM_SYMMETRIC_SIZE': None}, cost=10)
SA = ['--strict-acc']
add('P26', 'amo_opslist', args=dict(maxk=2), flags=SA, cost=30)
add('P26', 'amo_opslist', args=dict(maxk=2, mink=2, rev=1), flags=SA, cost=30)
add('P26', 'amo_opslist', args=dict(special=1), flags=SA, cost=20)
add('P26', 'amo_opslist', npe=3, args=dict(maxk=1), flags=SA, cost=20)
add('P26', 'amo_opslist', args=dict(maxk=3, mink=3), flags=SA, cost=60, tier='thorough')
add('P26', 'amo_opslist', args=dict(maxk=2, per=2), flags=SA, cost=60, tier='thorough', max_states=12000000, max_mem=8000)
# every documented way to ask for all operations keeps the operators that the locks need in the window hint
for v in (None, 'all', 'cswap,finc,inc,fadd,add,fetch,set,swap,fand,and,for,or,fxor,xor', 'any_op'):
    for m in AMO:
        add('P26', 'lock_mutex', env=dict(m, OSHMPI_AMO_OPS=v), flags=['--strict-hint'], cost=5)
        add('P26', 'amo_types', env=dict(m, OSHMPI_AMO_OPS=v), sched='lazy', args=dict(vals=1), flags=['--strict-hint'], cost=5)
# ---- P28
for n in (1, 2, 3, 4):
    add('P28', 'query_seq', npe=n, sched='eager' if n % 2 else 'lazy', args=dict(depth=4, nsp=2 if n < 3 else 1), cost=10)
add('P28', 'query_seq', npe=2, sched='lazy', flags=['--skew', 4096, '--page', 4096], args=dict(depth=3, nsp=2), cost=10)
add('P28', 'query_seq', npe=2, sched='lazy', args=dict(depth=6, nsp=2), cost=10, tier='thorough')
for v in ('dynwin', 'fast', 'single', 'notrack', 'nocache'):
    add('P28', 'query_seq', variant=v, npe=2, sched='lazy', args=dict(depth=4, nsp=2), tier='thorough')
# ---- P25
for m in BOTH:
    for s in SEQ:
        add('P25', 'init_seq', sched=s, env=m, args=dict(full=0), cost=10)
    add('P25', 'init_seq', sched='rr', npe=3, env=m, args=dict(full=0), cost=10)
    for f in ([], ['--rndv']):
        add('P25', 'fin_explore', env=m, flags=f, cost=20)
    add('P25', 'fin_explore', env=m, args=dict(space=1), cost=10)
    add('P25', 'fin_explore', env=m, args=dict(space=1, ctx=1), cost=10)
    add('P25', 'fin_explore', env=m, npe=3, cost=60)
for v, e in (('mt', {}), ('mtasync', {'OSHMPI_ENABLE_ASYNC_THREAD': '1'})):
    for s in SEQ + ('rr',):
        add('P25', 'init_seq', variant=v, sched=s, npe=3 if s == 'rr' else 2, env=e, flags=['--threads', 3], args=dict(full=0), cost=20)
for l in range(4):
    add('P25', 'init_seq', sched=SEQ[l % 2], env=BOTH[l], args=dict(maxlevel=l), flags=['--maxlevel', l], cost=10)
    add('P25', 'init_seq', sched=SEQ[l % 2], variant='single', env=BOTH[l], args=dict(maxlevel=l), flags=['--maxlevel', l], tier='thorough', cost=10)

# ---- P27
E16 = {'SHMEM_SYMMETRIC_SIZE': '16384'}
for m in BOTH:
    for s in SEQ:
        add('P27', 'rep_tags', env=m, sched=s, flags=['--tag-ub', 32767, '--max-steps', 20000000], cost=20)
        add('P27', 'rep_cycle', env=dict(m, **E16), sched=s, args=dict(n=16), cost=10)
    add('P27', 'rep_cycle', env=dict(m, **E16), sched='lazy', npe=3, args=dict(n=16), cost=10)
    add('P27', 'rep_cycle', env=dict(m, **E16), sched='rr', npe=4, args=dict(n=10), flags=['--ppn', 2, '--rndv'], cost=10)
    add('P27', 'rep_cycle', env=dict(m, **E16), sched='lazy', args=dict(n=200, depth=1), flags=['--max-steps', 5000000], cost=10)
    add('P27', 'rep_cycle', env=dict(m, **E16), sched='lazy', args=dict(n=8, depth=3), cost=60, tier='thorough')
    for v in ('nocache', 'notrack', 'dynwin', 'fast', 'single'):
        add('P27', 'rep_cycle', env=dict(m, **E16), variant=v, sched='lazy', args=dict(n=16), cost=10, tier='thorough')
    # the tag range is nearly used up when the exploration starts
    ub = ['--tag-ub', 32767, '--max-steps', 2000000]
    pre = 32767 - 2003 - 1
    if not m.get('OSHMPI_AMO_DBG_MODE'):
        add('P27', 'quiet_explore', env=m, args=dict(depth=2, first=1, preroll=pre), flags=ub, cost=10)
        add('P27', 'quiet_all', env=m, flags=ub, args=dict(preroll=pre), cost=30, tier='thorough' if m else 'quick')
        add('P27', 'amo_atomic', env=m, args=dict(per=2, set=2, preroll=pre), flags=ub, cost=20)
    # a tag range of 2: tags of outstanding operations coincide
    add('P27', 'quiet_explore', env=m, args=dict(depth=2, first=1), flags=['--tag-ub', 2004], cost=10, tier='thorough')
    add('P27', 'quiet_all', env=m, flags=['--tag-ub', 2004], cost=30, tier='thorough')
    add('P27', 'amo_atomic', env=m, args=dict(per=2, set=2), flags=['--tag-ub', 2004], cost=20, tier='thorough')
    add('P27', 'quiet_all', env=m, flags=['--tag-ub', 2004, '--rndv'], cost=40, tier='thorough')
    add('P27', 'quiet_hist', env=m, sched='lazy', args=dict(depth=4), flags=['--tag-ub', 2005], cost=20, tier='thorough')

# ---- P29
T3 = ['--threads', 3]
AA = {'OSHMPI_ENABLE_ASYNC_THREAD': '1'}
D = {'OSHMPI_AMO_DBG_MODE': 'direct'}
R = {'OSHMPI_RMA_DBG_MODE': 'am'}
def mt(scen, env={}, cost=3, tier='quick', variant='mt', flags=(), **args):
    add('P29', scen, variant=variant, env=env, args=args, flags=T3 + list(flags), cost=cost, tier=tier, max_secs=60 if tier == 'quick' else 250)
mt('mt_quiet', alpha=4, cost=8)
mt('mt_quiet', D, alpha=6)
mt('mt_quiet', dict(R, **D), op0=1, op1=3, symm=0, cost=5)
mt('mt_quiet', R, op0=2, op1=0, symm=0, cost=8)
mt('mt_quiet', R, op0=2, op1=2, symm=0)
mt('mt_quiet', R, op0=3, op1=0, symm=0, cost=4)
mt('mt_handoff', alpha=2)
mt('mt_handoff', D, alpha=3, cost=1)
mt('mt_handoff', R, op0=2, op1=0, cost=9)
mt('mt_handoff', R, op0=0, op1=2, cost=4)
mt('mt_handoff', R, op0=0, op1=5, cost=4)
mt('mt_amo', D, cost=4)
for m0 in range(4):
    mt('mt_amo', actors=1, m0=m0, m1=3, cost=5)
mt('mt_amo', actors=1, m0=2, m1=0, tgt=1)
mt('mt_amo', actors=2, m0=0, m1=3, cost=16)
mt('mt_tags', n0=1, n1=2)
mt('mt_tags', n0=1, n1=2, k0=4, k1=3)
mt('mt_tags', R, n0=1, n1=2, k0=1, k1=2)
mt('mt_tags', R, n0=1, n1=2, k0=5, k1=0)
mt('mt_tags', n0=2, n1=2)
for k0, k1 in ((6, 6), (6, 7), (8, 6), (6, 0), (6, 1), (7, 3)):
    mt('mt_tags', R, n0=1, n1=1, k0=k0, k1=k1)
mt('mt_tags', R, n0=1, n1=2, k0=6, k1=7)
mt('mt_tags', R, n0=1, n1=3, k0=0, k1=1)
mt('mt_tags', R, n0=2, n1=3, k0=4, k1=1, tier='thorough')
mt('mt_ctx', D, cost=5)
mt('mt_ctx', D, noquiet=1, cost=5)
mt('mt_ctx', D, nctx=1, rounds=2, cost=1)
mt('mt_ctx', noquiet=1, m0=3, m1=1, cost=6)
mt('mt_ctx', m0=0, m1=1, cost=12)
mt('mt_ctx', R, noquiet=1, m0=2, m1=1, cost=5)
for m in BOTH:
    mt('mt_wait', m, alpha=2, cost=2)
for m in range(6):
    mt('mt_coll', op0=2, mode=m, cost=12 if m in (0, 1, 4) else 1)
for m in (2, 3, 5):
    mt('mt_coll', R, op0=0, mode=m)
for s in (0, 1):
    for b in (0, 1):
        for e in ({}, R):
            mt('mt_async', dict(AA, **e), variant='mtasync', alpha=4, single=s, both=b, cost=2)
mt('mt_async', dict(AA, **R), variant='mtasync', alpha=4, both=1, flags=['--rndv'])
mt('mt_quiet', AA, variant='mtasync', alpha=2, flags=['--threads', 4], cost=5)
# thorough
for a in range(5):
    for b in range(5):
        for e in ({}, R, dict(R, **D)):
            mt('mt_quiet', e, op0=a, op1=b, symm=0, tier='thorough', cost=30)
            if b < 3:
                mt('mt_handoff', e, op0=a, op1=b, tier='thorough', cost=30)
for a in range(5):
    for b in range(a + 1):
        mt('mt_amo', m0=a, m1=b, tier='thorough', cost=60)
        mt('mt_amo', D, m0=a, m1=b, per=2, tier='thorough', cost=40)
for a in range(4):
    for b in range(a + 1):
        for e in ({}, R):
            mt('mt_ctx', e, m0=a, m1=b, tier='thorough', cost=60)
for m in range(6):
    for o in (0, 2, 3, 5):
        mt('mt_coll', R, op0=o, mode=m, tier='thorough', cost=40)
        mt('mt_coll', op0=o, mode=m, tier='thorough', cost=40)
mt('mt_wait', R, tier='thorough', cost=60)
mt('mt_wait', tier='thorough', cost=60)
# thorough: the other configurations of the library
OTHER = dict(dynwin='P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P15 P16 P17 P18 P19 P24 P30',
             fast='P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P15 P16 P17 P18 P19 P22 P23 P24 P30',
             notrack='P01 P02 P03 P04 P05 P07 P08 P10 P11 P13 P18 P23 P24',
             nocache='P01 P02 P03 P04 P16 P18 P30',
             single='P01 P03 P05 P07 P08 P10 P12 P14 P15 P16 P17 P18 P19 P22 P24')
def _others():
    for v, ps in OTHER.items():
        for p in ps.split():
            have = {(r['scen'], r.get('variant', 'base')) for r in P[p]}
            for r in list(P[p]):
                if r['tier'] == 'quick' and r.get('variant', 'base') in ('base', 'memy') and (r['scen'], v) not in have:
                    P[p].append(dict(r, tier='thorough', variant=v))
_others()
