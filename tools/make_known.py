#!/usr/bin/env python3
"""Writes known_findings.json from the repairs in /repo and the findings listed here."""
import json, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [ # (property, subject of the fix commit, what failed)
 ('P01', 'sized RMA routines pass', 'shmem_put8..128 and friends moved 8 times the requested bytes (AM transport) because the element size was given in bits'),
 ('P05', 'quiet and fence on a created context', 'shmem_ctx_quiet/fence on a space context returned with AM operations of that context outstanding'),
 ('P03', 'quiet and fence skip memory spaces', 'shmem_quiet/fence/barrier crashed while a created memory space was not attached'),
 ('P10', 'barriers complete default-context', 'shmem_barrier_all/shmem_barrier did not complete puts and AMOs on blocks of attached memory spaces'),
 ('P10', 'active-set barrier completes', 'shmem_barrier left AM operations to PEs outside the active set outstanding'),
 ('P13', 'clear_lock completes', 'shmem_clear_lock released the lock before the puts and AMOs of the critical section were complete'),
 ('P14', 'active-set broadcast root', 'shmem_broadcast32/64 took PE_root as a world PE number: wrong data, or a read from a non-member'),
 ('P25', 'finalize completes outstanding', 'shmem_finalize dropped AM atomics/puts that were still outstanding'),
 ('P20', 'the whole allocatable heap', 'blocks near the end of the symmetric heap were rejected as remote targets'),
 ('P20', 'an exhausted symmetric heap', 'shmem_malloc returned non-symmetric memory when the heap was exhausted'),
 ('P21', 'realloc synchronises', 'shmem_realloc recycled the old block while other PEs were still writing to it'),
 ('P20', 'realloc to size zero', 'shmem_realloc(ptr, 0) did not free; shmem_calloc(0, n) returned a block'),
 ('P22', 'memory pool rejects', 'shmemx_space_malloc of 0 or huge sizes returned overlapping or undersized blocks'),
 ('P22', 'space_calloc allocates', 'shmemx_space_calloc ignored count, crashed on exhaustion and zeroed after the barrier'),
 ('P22', 'space_align returns', 'shmemx_space_align ignored the alignment'),
 ('P27', 'active message tags wrap', 'after TAG_UB-2003 AM operations the library aborted'),
 ('P26', 'parse size values', 'SHMEM_SYMMETRIC_SIZE above 2^24 was rounded to single precision'),
 ('P26', 'accept the documented value', 'OSHMPI_AMO_OPS=all was taken for an empty list: the window hint which_accumulate_ops was "none" although locks use accumulates'),
 ('P19', 'SHMEM_TEAM_SHARED contains', 'SHMEM_TEAM_SHARED contained PEs of other nodes'),
 ('P19', 'team_translate_pe returns', 'shmem_team_translate_pe with an out-of-range PE was passed to MPI'),
 ('P08', 'team split serves', 'team split deadlocked with a PE waiting for an AM answer'),
 ('P08', 'space attach and detach serve', 'space attach/detach deadlocked with a PE waiting for an AM answer'),
 ('P08', 'active-set communicator creation', 'first use of an active set deadlocked with a PE waiting for an AM answer'),
 ('P29', 'initialise a new space', 'a new space was visible to other threads before it was initialised'),
 ('P11', 'shmem_team_sync failed', 'shmem_team_sync returned an error for every team except the world team'),
 ('P28', 'addr_accessible covers', 'shmem_addr_accessible denied addresses in attached memory spaces'),
 ('P24', 'complete outstanding operations when a context', 'shmem_ctx_destroy dropped the implicit quiet: operations issued on the context stayed outstanding'),
 ('P29', 'keep the operation tracking flag', 'with two threads, the tracking flag reset of one thread lost the put of the other: its quiet returned before completion'),
 ('P29', 'keep the flag of outstanding active', 'with two threads, the AM flag reset of one thread lost the AM of the other: its quiet returned before completion'),
 ('P29', 'signal termination', 'the progress thread signalled a condition variable that the finalizing thread may already have destroyed'),
 ('P12', 'address the lock queue of every PE', 'with a dynamic window (--enable-win-type=dynamic_win) the lock queue words of the other PEs were addressed with the displacement of the own PE'),
 ('P08', 'space attach exchanged addresses', 'with a dynamic window a blocking address exchange in space attach deadlocked with a PE waiting for the answer to an active message'),
 ('P29', 'do not expose a space', 'a quiet of one thread used windows of a space that another thread was still attaching or detaching'),
]
KNOWN = []
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
out = list(KNOWN)
for p, s, w in FIXED:
    c = [l.split()[0] for l in log if l.split(' ', 1)[1].startswith('fix: ' + s)]
    assert len(c) == 1, (s, c)
    out.append(dict(status='fixed', property=p, commit=c[0], what=w, line='fixed: property=%s %s %s' % (p, c[0], w)))
json.dump(dict(findings=out), open(H + '/known_findings.json', 'w'), indent=1)
