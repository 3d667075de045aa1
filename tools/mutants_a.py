R = 'src/internal/rma_impl.h'; RA = 'src/internal/rma_am_impl.h'; RC = 'src/internal/rma_am_impl.c'
AA = 'src/internal/amo_am_impl.h'; AC = 'src/internal/amo_am_impl.c'; AI = 'src/internal/amo_impl.h'
O = 'src/internal/order_impl.h'; PP = 'src/internal/p2p_impl.h'; L = 'src/internal/lock_impl.h'
C = 'src/internal/coll_impl.h'; CA = 'src/internal/coll_activeset_impl.h'; T = 'src/internal/team_impl.c'
TS = 'src/shmem/team.c'; SP = 'src/internal/space_impl.c'; ME = 'src/internal/mem_impl.c'
SD = 'src/internal/strided_impl.h'; AM = 'src/internal/am_impl.h'; AMC = 'src/internal/am_impl.c'
AP = 'src/internal/am_progress_impl.h'; OI = 'src/include/oshmpi_impl.h'; SU = 'src/internal/setup_impl.c'
CX = 'src/internal/ctx_impl.c'
# RMA
m('put-sticky-completed', 'P03', R, ("OSHMPI_SET_OUTSTANDING_OP(ictx, OSHMPI_OP_OUTSTANDING);     /* PUT is always", "OSHMPI_SET_OUTSTANDING_OP(ictx, origin_count > 1 ? OSHMPI_OP_OUTSTANDING : OSHMPI_OP_COMPLETED);     /* PUT is always"))
m('getnbi-completed', 'P03', R, ("nelems, nelems, pe, OSHMPI_OP_OUTSTANDING, sobj_attr);", "nelems, nelems, pe, OSHMPI_OP_COMPLETED, sobj_attr);"))
m('put-self-memcpy', 'P02 P01', R, ("                         nelems, pe, sobj_attr);\n        ctx_local_complete_impl(pe, ictx);", "                         nelems, pe, sobj_attr);\n        if (nelems > 1) ctx_local_complete_impl(pe, ictx);"))
m('iput-same-stride', 'P01', R, ("    if (origin_st == target_st) {\n        target_type = origin_type;", "    if (origin_st >= target_st) {\n        target_type = origin_type;"))
m('iget-swap-strides', 'P01 P30', R, ("          origin_st, target_st, nelems, pe, OSHMPI_OP_COMPLETED", "          target_st, origin_st, nelems, pe, OSHMPI_OP_COMPLETED"))
m('iget-no-complete', 'P02 P01', R, ("nelems, pe, OSHMPI_OP_COMPLETED, sobj_attr);\n        ctx_local_complete_impl(pe, ictx);\n    } else\n        OSHMPI_rma_am_iget", "nelems, pe, OSHMPI_OP_COMPLETED, sobj_attr);\n        if (origin_st != target_st) ctx_local_complete_impl(pe, ictx);\n    } else\n        OSHMPI_rma_am_iget"))
m('amget-no-outstanding', 'P03', RA, ("    /* Indicate outstanding AM */\n    OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 1);\n    OSHMPI_free_strided", "    OSHMPI_free_strided"))
m('amiput-stride', 'P01', RA, ("iput_pkt->target_st = target_st;", "iput_pkt->target_st = nelems > 1 ? target_st : 1;"), ("OSHMPI_create_strided_dtype(nelems, origin_st, mpi_type, 0", "OSHMPI_create_strided_dtype(nelems, origin_st == target_st ? target_st : origin_st, mpi_type, 0"))
m('amput-wrong-tag-comm', 'P29', RA, ("put_pkt->ptag = OSHMPI_am_get_pkt_ptag();", "put_pkt->ptag = OSHMPI_AM_PKT_PTAG_START;"))
m('amget-reset-all', 'P03', RA, ("OSHMPI_RESET_OUTSTANDING_FLAG(OSHMPI_am.outstanding_op_flags[pe]);\n}\n\n/* Issue a strided PUT", "for (int i = 0; i < OSHMPI_global.team_world_n_pes; i++) OSHMPI_RESET_OUTSTANDING_FLAG(OSHMPI_am.outstanding_op_flags[i]);\n}\n\n/* Issue a strided PUT"))
m('amo-fetch-reset-before', 'P03 P29', AA, ("    fetch_pkt->mpi_op_idx = op_idx;", "    fetch_pkt->mpi_op_idx = op_idx;\n"))
m('amo-post-flag-before', 'P03', AA, ("    /* Indicate outstanding AMO */\n    OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 1);", "    if (pe != OSHMPI_global.team_world_my_pe)\n    OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 1);"))
m('amo-fetch-value-noop', 'P07', AA, ("if (fetch_pkt->mpi_op_idx != OSHMPI_AM_MPI_NO_OP)", "if (fetch_pkt->mpi_op_idx == OSHMPI_AM_MPI_SUM || fetch_pkt->mpi_op_idx == OSHMPI_AM_MPI_REPLACE)"))
m('cswap-bitcmp', 'P07', AC, ("if (*(c_type *) dest == *(c_type *) cond_ptr)", "if ((int) *(c_type *) dest == (int) *(c_type *) cond_ptr)"))
m('amo-direct-nooutst', 'P03', AI, ("    if (op == MPI_NO_OP)\n", "    if (op == MPI_NO_OP || op == MPI_REPLACE)\n"))
m('amo-direct-cswap-nooutst', 'P03', AI, ("    OSHMPI_SET_OUTSTANDING_OP(ictx, OSHMPI_OP_OUTSTANDING);     /* remote SWAP", "    OSHMPI_SET_OUTSTANDING_OP(ictx, OSHMPI_OP_COMPLETED);     /* remote SWAP"))
m('amo-cswap-put', 'P06', AC, ("    OSHMPI_AMO_OP_TYPE_IMPL(cswap_pkt->mpi_type_idx);", "    OSHMPI_AMO_OP_TYPE_IMPL(cswap_pkt->mpi_type_idx);\n"))
# order
m('quiet-skip-data', 'P03', O, ("""    ctx_flush_impl(&OSHMPI_global.symm_heap_ictx);
    ctx_flush_impl(&OSHMPI_global.symm_data_ictx);
#endif

    /* Flush all space contexts */
    OSHMPI_space_t *space, *tmp;
    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
    LL_FOREACH_SAFE(OSHMPI_global.space_list.head, space, tmp) {
        int i;
        /* No window exists unless the space is attached */
        for (i = 0; space->ctx_list && i < space->config.num_contexts; i++)
            ctx_flush_impl(&(space->ctx_list[i].ictx));
#ifndef OSHMPI_ENABLE_DYNAMIC_WIN
        if (space->default_ictx.win != MPI_WIN_NULL)
            ctx_flush_impl(&space->default_ictx);
#endif
    }
    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);

    /* Ensure AM completion""", """    ctx_flush_impl(&OSHMPI_global.symm_heap_ictx);
    ctx_flush_impl(&OSHMPI_global.symm_data_ictx);
#endif

    /* Flush all space contexts */
    OSHMPI_space_t *space, *tmp;
    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
    LL_FOREACH_SAFE(OSHMPI_global.space_list.head, space, tmp) {
        int i;
        /* No window exists unless the space is attached */
        for (i = 1; space->ctx_list && i < space->config.num_contexts; i++)
            ctx_flush_impl(&(space->ctx_list[i].ictx));
#ifndef OSHMPI_ENABLE_DYNAMIC_WIN
        if (space->default_ictx.win != MPI_WIN_NULL)
            ctx_flush_impl(&space->default_ictx);
#endif
    }
    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);

    /* Ensure AM completion"""))
m('ctxquiet-no-am', 'P05', O, ("        /* Ensure AM completion (e.g., AM AMOs) */\n        OSHMPI_am_flush_all(ctx);\n        return;", "        /* Ensure AM completion (e.g., AM AMOs) */\n        return;"))
m('ctxfence-no-am', 'P05 P04', O, ("        /* Ensure AM ordered delivery (e.g., AM AMOs) */\n        OSHMPI_am_flush_all(ctx);", "        /* Ensure AM ordered delivery (e.g., AM AMOs) */"))
m('fence-first-space', 'P04', O, ("        if (space->default_ictx.win != MPI_WIN_NULL)\n            ctx_flush_impl(&space->default_ictx);", "        if (space->default_ictx.win != MPI_WIN_NULL && space->ctx_list)\n            ctx_flush_impl(&space->default_ictx);"))
# p2p
m('wait-gt', 'P09', PP, ("ret = (a >= b) ? 1 : 0; break;", "ret = ((long)(a) >= (long)(b)) ? 1 : 0; break;"))
m('wait-lt-diff', 'P09', PP, ("ret = (a < b) ? 1 : 0; break;", "ret = (a - b < 0) ? 1 : 0; break;"))
m('test-flushonly', 'P09', PP, ("    if (!test_ret) /* Skip progress if complete immediately */", "    if (!test_ret && comp_op == SHMEM_CMP_EQ) /* Skip progress if complete immediately */"))
# lock
m('clear-no-quiet-am', 'P13', L, ("    /* Complete all operations issued in the critical region before releasing the lock */\n    OSHMPI_ctx_quiet(SHMEM_CTX_DEFAULT);", "    OSHMPI_ctx_fence(SHMEM_CTX_DEFAULT);"))
m('clear-noprogress', 'P12 P08', L, ("            if (nextid != 0)\n                break;\n            OSHMPI_am_cb_progress();", "            if (nextid != 0)\n                break;"))
m('setlock-signal-order', 'P12', L, ("""    /* Reset my local bits. No one accesses to my next bits now. */
    lock->next = 0;
    OSHMPI_CALLMPI(MPI_Win_sync(ictx->win));

    /* Claim the lock in root process */
    OSHMPI_CALLMPI(MPI_Fetch_and_op
                   (&myid, &curid, MPI_INT, OSHMPI_LOCK_ROOT_WRANK, lock_last_disp, MPI_REPLACE,
                    ictx->win));
    OSHMPI_CALLMPI(MPI_Win_flush(OSHMPI_LOCK_ROOT_WRANK, ictx->win));
""", """    /* Claim the lock in root process */
    OSHMPI_CALLMPI(MPI_Fetch_and_op
                   (&myid, &curid, MPI_INT, OSHMPI_LOCK_ROOT_WRANK, lock_last_disp, MPI_REPLACE,
                    ictx->win));
    OSHMPI_CALLMPI(MPI_Win_flush(OSHMPI_LOCK_ROOT_WRANK, ictx->win));
    /* Reset my local bits. No one accesses to my next bits now. */
    lock->next = 0;
    OSHMPI_CALLMPI(MPI_Win_sync(ictx->win));
"""))
m('lock-mask-2', 'P12', L, ("#define NEXT_MASK (INT_MAX)", "#define NEXT_MASK (0x3)"))
m('testlock-nonzero', 'P12', L, ("    if (curid == zero) {", "    if (curid == zero || curid == myid) {"))
m('clear-signal-replace', 'P12', L, ("                                      MPI_UNSIGNED, MPI_BOR, ictx->win));\n        OSHMPI_CALLMPI(MPI_Win_flush(nextid - 1", "                                      MPI_UNSIGNED, MPI_REPLACE, ictx->win));\n        OSHMPI_CALLMPI(MPI_Win_flush(nextid - 1"))
# coll
m('barrier-no-data', 'P10', C, ("    OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_data_ictx.win));\n#endif\n    /* Ensure AM", "    if (OSHMPIU_ATOMIC_FLAG_LOAD(OSHMPI_global.symm_heap_ictx.outstanding_op))\n    OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_data_ictx.win));\n#endif\n    /* Ensure AM"))
m('aset-barrier-amset', 'P10', CA, ("    OSHMPI_am_flush_all(SHMEM_CTX_DEFAULT);", "    OSHMPI_am_flush(SHMEM_CTX_DEFAULT, PE_start, logPE_stride, PE_size);"))
m('bcast-root-world', 'P14', CA, ("const int root_wpe = PE_start + PE_root * (1 << logPE_stride);", "const int root_wpe = PE_start + (PE_root << (logPE_stride & 1));"))
m('bcast-team-noroot', 'P14', C, ("        memcpy(dest, source, nelems * (size_t) extent);", "        memcpy(dest, source, nelems * (size_t) (extent < 8 ? extent : 8));"))
m('collect-n-first', 'P15', C, ("        rdispls[i] = rdispls[i - 1] + rcounts[i - 1];\n        same_nelems &= (nelems == rcounts[i]);", "        rdispls[i] = rdispls[i - 1] + rcounts[i - 1];\n        same_nelems &= (nelems >= rcounts[i]);"))
m('collect-zero', 'P15', CA, ("    if (same_nelems)    /* call", "    if (same_nelems || nelems == 0)    /* call"))
m('a2as-extent', 'P16', C, ("nelems * dst /* required extent */", "nelems * sst /* required extent */"))
m('a2as-extent-aset', 'P16', CA, ("nelems * dst /* required extent */", "(nelems - 1) * dst + 1 /* required extent */"))
m('allreduce-inplace', 'P17', CA, ("    OSHMPI_am_progress_mpi_allreduce((source == dest) ? MPI_IN_PLACE : source,", "    OSHMPI_am_progress_mpi_allreduce((source == dest && count > 1) ? MPI_IN_PLACE : source,"))
m('comm-cache-stride', 'P18', CA, ("if (cobj->pe_start == PE_start && cobj->pe_stride == logPE_stride\n            && cobj->pe_size == PE_size)", "if (cobj->pe_start == PE_start && (cobj->pe_stride == logPE_stride || PE_size == 1)\n            && cobj->pe_size == PE_size)"))
m('comm-cache-stride2', 'P18', CA, ("if (cobj->pe_start == PE_start && cobj->pe_stride == logPE_stride\n", "if (cobj->pe_start == PE_start && (1 << cobj->pe_stride) * (PE_size - 1) == (1 << logPE_stride) * (PE_size - 1)\n"))
m('comm-cache-start', 'P18', CA, ("if (cobj->pe_start == PE_start && cobj->pe_stride == logPE_stride\n", "if ((cobj->pe_start & ~1) == (PE_start & ~1) && cobj->pe_stride == logPE_stride\n"))
m('acquire-world', 'P18 P14', CA, ("    if (PE_start == 0 && logPE_stride == 0 && PE_size == OSHMPI_global", "    if (PE_start == 0 && PE_size >= OSHMPI_global.team_world_n_pes - logPE_stride && PE_size + logPE_stride == OSHMPI_global"))
m('sync-flag-skip', 'P11', C, ("    OSHMPI_am_progress_mpi_barrier(team->comm);", "    if (team->n_pes > 2) OSHMPI_am_progress_mpi_barrier(team->comm);"))
m('sync-all-nosync', 'P11', C, ("    OSHMPI_CALLMPI(MPI_Win_sync(OSHMPI_global.symm_data_ictx.win));\n#endif\n    OSHMPI_am_progress_mpi_barrier(OSHMPI_global.team_world_comm);\n}\n\nOSHMPI_STATIC_INLINE_PREFIX void OSHMPI_sync_team", "#endif\n    OSHMPI_am_progress_mpi_barrier(OSHMPI_global.team_world_comm);\n}\n\nOSHMPI_STATIC_INLINE_PREFIX void OSHMPI_sync_team"))
m('sync-blocking', 'P08', CA, ("    coll_acquire_comm(PE_start, logPE_stride, PE_size, &comm);\n    OSHMPI_am_progress_mpi_barrier(comm);\n}\n\nOSHMPI_STATIC_INLINE_PREFIX void OSHMPI_broadcast", "    coll_acquire_comm(PE_start, logPE_stride, PE_size, &comm);\n    OSHMPI_CALLMPI(MPI_Barrier(comm));\n}\n\nOSHMPI_STATIC_INLINE_PREFIX void OSHMPI_broadcast"))
# AM
m('flush-once-tag', 'P29', AM, ("    return (int) (off % range) + OSHMPI_AM_PKT_PTAG_START;", "    return (int) (off % 2) + OSHMPI_AM_PKT_PTAG_START;"))
m('flush-reset-early', 'P03', AM, ("        if (OSHMPIU_ATOMIC_FLAG_LOAD(OSHMPI_am.outstanding_op_flags[pe])) {\n            OSHMPI_CALLMPI(MPI_Isend", "        if (OSHMPIU_ATOMIC_FLAG_LOAD(OSHMPI_am.outstanding_op_flags[pe]) && (noutstanding_pes < PE_size || i)) {\n            OSHMPI_CALLMPI(MPI_Isend"))
m('flush-stride', 'P10 P03', AM, ("    if (noutstanding_pes == 0)\n        return;", "    if (noutstanding_pes == 0 || PE_size == 1)\n        return;"))
m('am-waitall-1', 'P02 P01', AP, ("            OSHMPI_CALLMPI(MPI_Testall(count, array_of_requests, &am_mpi_flag, array_of_statuses));", "            OSHMPI_CALLMPI(MPI_Testall(count > 2 ? count - 1 : count, array_of_requests, &am_mpi_flag, array_of_statuses));"))
m('am-send-noprogress', 'P08', AP, ("        OSHMPI_CALLMPI(MPI_Isend(buf, count, datatype, dest, tag, comm, &am_mpi_req));\n        OSHMPI_AM_PROGRESS_MPI(am_mpi_req, MPI_STATUS_IGNORE);", "        OSHMPI_CALLMPI(MPI_Isend(buf, count, datatype, dest, tag, comm, &am_mpi_req));\n        OSHMPI_CALLMPI(MPI_Wait(&am_mpi_req, MPI_STATUS_IGNORE));"))
m('am-allreduce-noprog', 'P08', AP, ("        OSHMPI_CALLMPI(MPI_Iallreduce(sendbuf, recvbuf, count, datatype, op, comm, &am_mpi_req));\n        OSHMPI_AM_PROGRESS_MPI(am_mpi_req, MPI_STATUS_IGNORE);", "        OSHMPI_CALLMPI(MPI_Iallreduce(sendbuf, recvbuf, count, datatype, op, comm, &am_mpi_req));\n        OSHMPI_CALLMPI(MPI_Wait(&am_mpi_req, MPI_STATUS_IGNORE));"))
m('am-a2a-noprog', 'P08', AP, ("                        &am_mpi_req));\n        OSHMPI_AM_PROGRESS_MPI(am_mpi_req, MPI_STATUS_IGNORE);\n    }\n}\n\nOSHMPI_STATIC_INLINE_PREFIX void OSHMPI_am_progress_mpi_allreduce", "                        &am_mpi_req));\n        OSHMPI_CALLMPI(MPI_Wait(&am_mpi_req, MPI_STATUS_IGNORE));\n    }\n}\n\nOSHMPI_STATIC_INLINE_PREFIX void OSHMPI_am_progress_mpi_allreduce"))
m('am-handle-any', 'P24 P01', OI, ("                if (space->sobj_attr.handle == sobj_handle) {", "                if ((space->sobj_attr.handle & ~1) == (sobj_handle & ~1)) {"))
m('am-space-break', 'P24 P01', OI, ("                    *vaddr = (void *) ((char *) space->sobj_attr.base + disp);\n                    break;", "                    *vaddr = (void *) ((char *) OSHMPI_global.space_list.head->sobj_attr.base + disp);\n                    break;"))
# space
m('space-attach-idx', 'P23 P24', SP, ("    space_attach_idx++;", "    if (space->config.num_contexts) space_attach_idx++;"))
m('space-detach-nobarrier', 'P23', SP, ("    OSHMPI_ASSERT((space->config.num_contexts == 0 || space->ctx_list));", "    OSHMPI_ASSERT((space->config.num_contexts == 0 || space->ctx_list));\n"), ("    OSHMPI_barrier_all();\n\n    /* Space should have already be attached or no context is required at config */", "    OSHMPI_ctx_quiet(SHMEM_CTX_DEFAULT);\n\n    /* Space should have already be attached or no context is required at config */"))
m('space-create-noctx', 'P24', SP, ("        shmem_errno = SHMEM_NO_CTX;", "        *ctx_ptr = &space->ctx_list[0];"))
m('space-malloc-nobarrier', 'P21', SP, ("                  space, size, ptr, (MPI_Aint) ptr - (MPI_Aint) space->sobj_attr.base);\n    OSHMPI_barrier_all();", "                  space, size, ptr, (MPI_Aint) ptr - (MPI_Aint) space->sobj_attr.base);\n    OSHMPI_sync_all();"))
m('space-detach-handle', 'P23', SP, ("    OSHMPI_sobj_set_handle(&space->sobj_attr, OSHMPI_SOBJ_SPACE_HEAP, 0, 0);\n}", "}"))
# team
m('split-2d-y', 'P19', TS, ("    int y_pos = _parent_team->my_pe / xrange;", "    int y_pos = _parent_team->my_pe / xrange % xrange;"))
m('split-2d-xr', 'P19', TS, ("    int x_pos = _parent_team->my_pe % xrange;", "    int x_pos = _parent_team->my_pe % (xrange > _parent_team->n_pes ? _parent_team->n_pes - 1 : xrange);"))
m('split-range', 'P19', TS, ("(_parent_team->my_pe >= start) && (_parent_team->my_pe <= end_pe)", "(_parent_team->my_pe <= end_pe)"))
m('translate-shared', 'P19', TS, ("        src_group = OSHMPI_global.team_shared_group;", "        src_group = OSHMPI_global.team_world_group;"))
m('get-config', 'P19', TS, ("        *config = _team->config;", "        *config = OSHMPI_global.team_world->config;"))
m('team-key', 'P19', T, ("MPI_Comm_split(team->comm, color, team->my_pe, &new_comm)", "MPI_Comm_split(team->comm, color, -team->my_pe, &new_comm)"))
m('team-group-leak', 'P27', T, ("    OSHMPI_CALLMPI(MPI_Group_free(&((*team)->group)));\n", "    if ((*team)->n_pes > 1)\n    OSHMPI_CALLMPI(MPI_Group_free(&((*team)->group)));\n"))
# mem
m('calloc-nobarrier', 'P21', ME, ("    OSHMPI_DBGMSG(\"count %ld, size %ld, ptr %p, disp 0x%lx\\n\", count, size, ptr,\n                  (MPI_Aint) ptr - (MPI_Aint) OSHMPI_global.symm_heap_attr.base);\n    OSHMPI_barrier_all();", "    OSHMPI_sync_all();"))
m('align-barrier', 'P21', ME, ("    OSHMPI_DBGMSG(\"alignment %ld size %ld -> %p\\n\", alignment, size, ptr);\n    OSHMPI_barrier_all();", "    if (ptr == NULL) OSHMPI_barrier_all();"))
m('calloc-zero', 'P20', ME, ("    ptr = mspace_calloc(OSHMPI_global.symm_heap_mspace, count, size);", "    ptr = mspace_malloc(OSHMPI_global.symm_heap_mspace, count * size);\n    if (ptr) memset(ptr, 0, size);"))
m('realloc-copy', 'P20', ME, ("    rptr = mspace_realloc(OSHMPI_global.symm_heap_mspace, ptr, size);", "    rptr = mspace_realloc(OSHMPI_global.symm_heap_mspace, ptr, ptr ? (size < 32 ? 32 : size) - 8 : size);"))
# setup
m('fin-nobarrier', 'P25', SU, ("    OSHMPI_am_progress_mpi_barrier(OSHMPI_global.team_world_comm);\n\n    OSHMPI_coll_finalize();", "    OSHMPI_coll_finalize();"))
m('fin-strided', 'P25', SU, ("    OSHMPI_strided_finalize();\n    OSHMPI_space", "    OSHMPI_space"))
m('init-nobarrier', 'P25', SU, ("    OSHMPI_am_progress_mpi_barrier(OSHMPI_global.team_world_comm);\n    OSHMPI_global.is_initialized = 1;", "    OSHMPI_global.is_initialized = 1;"))
m('init-provided', 'P25', SU, ("    if (mpi_provided < shm_provided) {", "    if (mpi_provided < shm_provided && !mpi_initialized) {"))
m('amo-ops-finc', 'P26', SU, ("        else if (!strncmp(token, \"fetch\", strlen(\"fetch\")))", "        else if (!strncmp(token, \"fe\", 2) && ops)"))
m('amo-ops-same2', 'P26', SU, ("} else if (nops == 2 && (OSHMPI_env.amo_ops & (1 << OSHMPI_AMO_FETCH))) {", "} else if (nops == 2) {"))
