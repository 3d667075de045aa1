# atomicity against operations that are not accumulates
m('amo-set-put', 'P06', AI, ("    OSHMPI_CALLMPI(MPI_Accumulate\n", "    if (op == MPI_REPLACE)\n        OSHMPI_CALLMPI(MPI_Put(origin_addr, 1, mpi_type, pe, target_disp, 1, mpi_type, ictx->win));\n    else\n        OSHMPI_CALLMPI(MPI_Accumulate\n"))
m('amo-set-put-am', 'P06', AI, ("    if (OSHMPI_ENABLE_DIRECT_AMO_RUNTIME)\n        ctx_set_op_impl", "    if (OSHMPI_ENABLE_DIRECT_AMO_RUNTIME || (op == MPI_REPLACE && pe != OSHMPI_global.team_world_my_pe))\n        ctx_set_op_impl"))
m('amo-cswap-fail-put', 'P06', AI, ("    ctx_local_complete_impl(pe, ictx);\n\n    OSHMPI_SET_OUTSTANDING_OP(ictx, OSHMPI_OP_OUTSTANDING);     /* remote SWAP", "    ctx_local_complete_impl(pe, ictx);\n    if (pe == OSHMPI_global.team_world_my_pe) {\n        int sz;\n        OSHMPI_CALLMPI(MPI_Type_size(mpi_type, &sz));\n        if (memcmp(result_addr, compare_addr, sz))\n            memcpy(target_addr, result_addr, sz);\n    }\n\n    OSHMPI_SET_OUTSTANDING_OP(ictx, OSHMPI_OP_OUTSTANDING);     /* remote SWAP"))
m('amo-swap-getset', 'P06', AI, ("    OSHMPI_CALLMPI(MPI_Fetch_and_op\n                   (origin_addr, result_addr, mpi_type, pe, target_disp, op, ictx->win));", "    if (op == MPI_REPLACE) {\n        OSHMPI_CALLMPI(MPI_Fetch_and_op(NULL, result_addr, mpi_type, pe, target_disp, MPI_NO_OP, ictx->win));\n        OSHMPI_CALLMPI(MPI_Accumulate(origin_addr, 1, mpi_type, pe, target_disp, 1, mpi_type, op, ictx->win));\n    } else\n        OSHMPI_CALLMPI(MPI_Fetch_and_op\n                   (origin_addr, result_addr, mpi_type, pe, target_disp, op, ictx->win));"))
m('amo-cswap-am-get', 'P06', AI, ("    if (OSHMPI_ENABLE_DIRECT_AMO_RUNTIME)\n        ctx_cswap_impl", "    if (OSHMPI_ENABLE_DIRECT_AMO_RUNTIME || !memcmp(cond_ptr, value_ptr, bytes))\n        ctx_cswap_impl"))

AMI = 'src/internal/am_impl.c'; AMH = 'src/internal/am_impl.h'; AMP = 'src/internal/am_pre.h'; RAI = 'src/internal/rma_am_impl.c'
TE = 'src/shmem/team.c'; TI = 'src/internal/team_impl.c'; PRG = 'src/internal/am_progress_impl.h'; PO = 'src/internal/util/mem_pool.c'
# active messages
m('am-repost-early', 'P08 P06 P03', AMI, ("            int terminate_flag = 0;\n            am_cb_handle_pkt(am_pkt, cb_stat.MPI_SOURCE, &terminate_flag);\n            /* Do nothing when terminate.", "            int terminate_flag = 0;\n            int src_ = cb_stat.MPI_SOURCE;\n            if (am_pkt->type != OSHMPI_AM_PKT_TERMINATE) {\n                OSHMPI_CALLMPI(MPI_Irecv(am_pkt, sizeof(OSHMPI_am_pkt_t),\n                                     MPI_BYTE, MPI_ANY_SOURCE,\n                                     OSHMPI_AM_PKT_TAG, OSHMPI_am.comm, &OSHMPI_am.cb_req));\n                am_cb_handle_pkt(am_pkt, src_, &terminate_flag);\n                continue;\n            }\n            am_cb_handle_pkt(am_pkt, src_, &terminate_flag);\n            /* Do nothing when terminate."))
m('am-flush-noself', 'P03 P10', AMH, ("        if (OSHMPIU_ATOMIC_FLAG_LOAD(OSHMPI_am.outstanding_op_flags[pe]))\n            noutstanding_pes++;", "        if (OSHMPIU_ATOMIC_FLAG_LOAD(OSHMPI_am.outstanding_op_flags[pe])\n            && pe != OSHMPI_global.team_world_my_pe)\n            noutstanding_pes++;"))
m('am-flush-last', 'P03 P10', AMH, ("    OSHMPI_am_progress_mpi_waitall(nreqs, reqs, MPI_STATUS_IGNORE);\n    OSHMPIU_free(reqs);", "    if (nreqs > 8) {\n        OSHMPI_am_progress_mpi_waitall(8, reqs, MPI_STATUS_IGNORE);\n        nreqs -= 8;\n        OSHMPI_am_progress_mpi_waitall(nreqs - (nreqs > 4 ? 2 : 0), reqs + 8, MPI_STATUS_IGNORE);\n    } else\n    OSHMPI_am_progress_mpi_waitall(nreqs, reqs, MPI_STATUS_IGNORE);\n    OSHMPIU_free(reqs);"))
m('am-flush-ge4', 'P03 P10', AMH, ("    OSHMPI_ASSERT(PE_size * 2 >= nreqs);", "    if (nreqs > 6)\n        nreqs = 6;\n    OSHMPI_ASSERT(PE_size * 2 >= nreqs);"))
m('am-iput-st8', 'P01 P30', AMP, ("    ptrdiff_t target_st;", "    signed char target_st;"))
m('am-iput-nelems16', 'P01 P30', AMP, ("    size_t nelems;\n    uint32_t sobj_handle;", "    unsigned short nelems;\n    uint32_t sobj_handle;"))
m('am-disp16', 'P01 P20', AMP, ("typedef struct OSHMPI_am_get_pkt {\n    uint32_t sobj_handle;\n    MPI_Aint target_disp;", "typedef struct OSHMPI_am_get_pkt {\n    uint32_t sobj_handle;\n    unsigned short target_disp;"))
m('am-get-any', 'P01 P27', RA, ("    OSHMPI_CALLMPI(MPI_Irecv(origin_addr, nelems, mpi_type, pe, get_pkt->ptag,\n                             OSHMPI_am.ack_comm, &reqs[1]));", "    OSHMPI_CALLMPI(MPI_Irecv(origin_addr, nelems, mpi_type, MPI_ANY_SOURCE, get_pkt->ptag,\n                             OSHMPI_am.ack_comm, &reqs[1]));"))
m('am-put-cb-any', 'P01 P06 P03', RAI, ("    OSHMPI_CALLMPI(MPI_Recv(dest, put_pkt->bytes, MPI_BYTE, origin_rank,\n                            put_pkt->ptag, OSHMPI_am.comm", "    OSHMPI_CALLMPI(MPI_Recv(dest, put_pkt->bytes, MPI_BYTE, MPI_ANY_SOURCE,\n                            put_pkt->ptag, OSHMPI_am.comm"))
m('am-put-order', 'P04', RA, ("    OSHMPI_CALLMPI(MPI_Isend(&pkt, sizeof(OSHMPI_am_pkt_t), MPI_BYTE, pe, OSHMPI_AM_PKT_TAG,\n                             OSHMPI_am.comm, &reqs[0]));\n    OSHMPI_CALLMPI(MPI_Isend(origin_addr, nelems, mpi_type, pe, put_pkt->ptag,\n                             OSHMPI_am.comm, &reqs[1]));", "    OSHMPI_CALLMPI(MPI_Isend(origin_addr, nelems, mpi_type, pe, put_pkt->ptag,\n                             OSHMPI_am.comm, &reqs[1]));\n    OSHMPI_CALLMPI(MPI_Isend(&pkt, sizeof(OSHMPI_am_pkt_t), MPI_BYTE, pe, OSHMPI_AM_PKT_TAG,\n                             OSHMPI_am.comm, &reqs[0]));"))
m('am-iput-cnt-send', 'P08', RAI, ("    OSHMPI_CALLMPI(MPI_Send(dest, target_count, target_type,\n                            origin_rank, iget_pkt->ptag, OSHMPI_am.ack_comm));", "    OSHMPI_am_progress_mpi_send(dest, target_count, target_type,\n                            origin_rank, iget_pkt->ptag, OSHMPI_am.ack_comm);"))
m('am-waitall-noprogress-put', 'P08', PRG, ("            if (am_mpi_flag)    /* skip AM progress if complete immediately */\n                break;\n            OSHMPI_am_cb_progress();", "            if (am_mpi_flag)    /* skip AM progress if complete immediately */\n                break;\n            if (count > 2)\n                OSHMPI_am_cb_progress();"))
m('am-wait-recv', 'P08', PRG, ("        MPI_Request am_mpi_req = MPI_REQUEST_NULL;\n        OSHMPI_CALLMPI(MPI_Irecv(buf, count, datatype, src, tag, comm, &am_mpi_req));\n        OSHMPI_AM_PROGRESS_MPI(am_mpi_req, status);", "        OSHMPI_CALLMPI(MPI_Recv(buf, count, datatype, src, tag, comm, status));"))
m('am-allgatherv-block', 'P08', PRG, ("        OSHMPI_CALLMPI(MPI_Iallgatherv\n                       (sendbuf, sendcount, sendtype, recvbuf, recvcounts, displs, recvtype, comm,\n                        &am_mpi_req));", "        OSHMPI_CALLMPI(MPI_Allgatherv\n                       (sendbuf, sendcount, sendtype, recvbuf, recvcounts, displs, recvtype, comm));"))
m('am-ack-comm', 'P08 P27', AMI, ("    OSHMPI_CALLMPI(MPI_Comm_dup(OSHMPI_global.team_world_comm, &OSHMPI_am.ack_comm));", "    OSHMPI_am.ack_comm = OSHMPI_am.comm;"), ("    OSHMPI_CALLMPI(MPI_Comm_free(&OSHMPI_am.ack_comm));", ""))
# spaces
m('space-idx-n', 'P23 P27', SP, ("                           symm_flag, space_attach_idx);\n    space_attach_idx++;", "                           symm_flag, OSHMPI_global.space_list.nspaces - 1);"))
m('space-ctx-copy', 'P23 P24', SP, ("            ctx_list[i].sobj_attr = space->sobj_attr;", "            ctx_list[i].sobj_attr = space->sobj_attr;\n            if (i > 1)\n                ctx_list[i].ictx.win = ctx_list[1].ictx.win;"))
m('space-detach-nbarrier', 'P23', SP, ("     * message progress, thus wait for all PEs first. */\n    OSHMPI_barrier_all();\n\n    /* Space should", "     * message progress, thus wait for all PEs first. */\n    if (space->config.num_contexts > 0)\n        OSHMPI_barrier_all();\n\n    /* Space should"))
m('space-destroy-first', 'P22 P23', SP, ("    LL_DELETE(OSHMPI_global.space_list.head, space);\n", "    if (OSHMPI_global.space_list.head->next == space)\n        OSHMPI_global.space_list.head->next = NULL;\n    else\n        LL_DELETE(OSHMPI_global.space_list.head, space);\n"))
m('space-create-ctx-all', 'P24', SP, ("        if (OSHMPIU_ATOMIC_FLAG_CAS(space->ctx_list[i].used_flag, 0, 1) == 0) {", "        if (OSHMPIU_ATOMIC_FLAG_CAS(space->ctx_list[i].used_flag, 0, 1) == 0 || (i == 3 && options)) {"))
m('space-calloc-barrier', 'P21', SP, ("    if (ptr)\n        memset(ptr, 0, count * size);\n", ""), ("                  space, count, size, ptr, (MPI_Aint) ptr - (MPI_Aint) space->sobj_attr.base);\n    OSHMPI_barrier_all();", "                  space, count, size, ptr, (MPI_Aint) ptr - (MPI_Aint) space->sobj_attr.base);\n    OSHMPI_barrier_all();\n    if (ptr)\n        memset(ptr, 0, count * size);"))
m('pool-free-clear', 'P22', PO, ("    mem_pool->chunks_nused[off] = 0;", "    for (unsigned int i = 0, n = mem_pool->chunks_nused[off]; i <= n && off + i < mem_pool->nchunks; i++)\n        mem_pool->chunks_nused[off + i] = 0;"))
m('pool-start-hint', 'P22', PO, ("    int off = 0, navail = 0;", "    static int last = 0;\n    int off = size > mem_pool->chunk_size ? 0 : last, navail = 0;"), ("        mem_pool->chunks_nused[first_off] = nalloc;", "        mem_pool->chunks_nused[first_off] = nalloc;\n        last = nalloc == 1 && first_off < 2 ? first_off : 0;"))
# heap
m('calloc-zero-late', 'P21', ME, ("    ptr = mspace_calloc(OSHMPI_global.symm_heap_mspace, count, size);", "    if (count > SIZE_MAX / size)\n        ptr = NULL;\n    else\n        ptr = mspace_malloc(OSHMPI_global.symm_heap_mspace, count * size);"), ("    OSHMPI_DBGMSG(\"count %ld, size %ld, ptr %p, disp 0x%lx\\n\", count, size, ptr,", "    OSHMPI_barrier_all();\n    if (ptr)\n        memset(ptr, 0, count * size);\n    return ptr;\n    OSHMPI_DBGMSG(\"count %ld, size %ld, ptr %p, disp 0x%lx\\n\", count, size, ptr,"))
m('realloc-inplace-nobarrier', 'P21', ME, ("    OSHMPI_DBGMSG(\"ptr %p size %ld -> %p\\n\", ptr, size, rptr);\n    OSHMPI_barrier_all();", "    if (rptr != ptr)\n        OSHMPI_barrier_all();"))
m('realloc-null-nobarrier', 'P21', ME, ("    OSHMPI_DBGMSG(\"ptr %p size %ld -> %p\\n\", ptr, size, rptr);\n    OSHMPI_barrier_all();", "    if (ptr)\n        OSHMPI_barrier_all();"))
m('free-first-fit', 'P20', ME, ("        mspace_free(OSHMPI_global.symm_heap_mspace, ptr);", "        if (((uintptr_t) ptr & 1023) || ptr == OSHMPI_global.symm_heap_attr.base)\n            mspace_free(OSHMPI_global.symm_heap_mspace, ptr);"))
# strided cache
m('strided-lru8', 'P30', SD, ("    LL_FOREACH(OSHMPI_strided_dtype_cache.head, dobj) {\n        if (dobj->nelems == nelems && dobj->stride == stride", "    LL_FOREACH(OSHMPI_strided_dtype_cache.head, dobj) {\n        if (dobj->nelems * dobj->stride == nelems * stride && (OSHMPI_strided_dtype_cache.nobjs > 12 || dobj->stride == stride)"))
m('strided-stride8', 'P30', SD, ("dobj->stride == stride\n            && dobj->dtype", "(dobj->stride & 0xff) == (stride & 0xff)\n            && dobj->dtype"))
m('strided-dtype-size', 'P30 P01', SD, ("            && dobj->dtype == mpi_type && dobj", "            && (dobj->dtype == mpi_type || (mpi_type == MPI_FLOAT && dobj->dtype == MPI_INT16_T)) && dobj"))
m('strided-ext-min', 'P16 P30', SD, ("dobj->ext_nelems == required_ext_nelems) {", "dobj->ext_nelems >= required_ext_nelems) {"))
# teams
m('team-translate-shared', 'P19', TE, ("    } else if (dest_team == SHMEM_TEAM_SHARED) {\n        dest_group = OSHMPI_global.team_shared_group;", "    } else if (dest_team == SHMEM_TEAM_SHARED) {\n        dest_group = OSHMPI_global.team_world_group;"))
m('team-my-shared', 'P19', TE, ("        return OSHMPI_global.team_shared_my_pe;", "        return OSHMPI_global.team_world_my_pe % OSHMPI_global.team_shared_n_pes;"))
m('team-split-from-shared', 'P19', TE, ("        _parent_team = OSHMPI_global.team_shared;\n    } else {\n        _parent_team = OSHMPI_TEAM_HANDLE_TO_OBJ(parent_team);\n    }\n\n    /* X, Y", "        _parent_team = OSHMPI_global.team_shared_n_pes > 2 ? OSHMPI_global.team_world : OSHMPI_global.team_shared;\n    } else {\n        _parent_team = OSHMPI_TEAM_HANDLE_TO_OBJ(parent_team);\n    }\n\n    /* X, Y"))
m('team-split-key', 'P19', TI, ("MPI_Comm_split(team->comm, color, team->my_pe, &new_comm)", "MPI_Comm_split(team->comm, color, (signed char) (team->my_pe << 5), &new_comm)"))
m('team-destroy-nogroup', 'P19 P27', TI, ("    OSHMPI_CALLMPI(MPI_Group_free(&((*team)->group)));\n", "    if ((*team)->n_pes > 1)\n        OSHMPI_CALLMPI(MPI_Group_free(&((*team)->group)));\n"))
m('team-config-ptr', 'P19', TE, ("        if (yaxis_config && yaxis_mask != 0) {\n            _new_y_team->config = *yaxis_config;", "        if (yaxis_config && xaxis_mask != 0) {\n            _new_y_team->config = *yaxis_config;"))
# collectives
m('collect-same-and', 'P15', CA, ("        same_nelems &= (nelems == rcounts[i]);", "        same_nelems = (nelems == rcounts[i]);"))
m('collect-same-team-last', 'P15', C, ("        same_nelems &= (nelems == rcounts[i]);", "        same_nelems &= (rcounts[i] == rcounts[i - 1] || nelems == 0);"))
m('comm-cache-mru', 'P18', CA, ("            found = 1;\n            *comm = cobj->comm;", "            found = 1;\n            if (cobj != OSHMPI_coll_comm_cache.head && OSHMPI_coll_comm_cache.nobjs > 2) {\n                OSHMPI_comm_cache_obj_t *p_ = OSHMPI_coll_comm_cache.head, t_;\n                while (p_->next != cobj) p_ = p_->next;\n                t_ = *p_; p_->pe_start = cobj->pe_start; p_->pe_size = cobj->pe_size; p_->pe_stride = cobj->pe_stride; p_->group = cobj->group;\n                cobj->pe_start = t_.pe_start; cobj->pe_size = t_.pe_size; cobj->pe_stride = t_.pe_stride; cobj->group = t_.group;\n            }\n            *comm = cobj->comm;"))
m('comm-cache-cap', 'P18 P27', CA, ("    coll_set_comm_cache(PE_start, logPE_stride, PE_size, *comm, strided_group);", "    if (OSHMPI_coll_comm_cache.nobjs < 6)\n        coll_set_comm_cache(PE_start, logPE_stride, PE_size, *comm, strided_group);"))
m('coll-sync-skip', 'P08', CA, ("    coll_sync_pes(PE_size, pe_list);", "    if (PE_size < 4)\n        coll_sync_pes(PE_size, pe_list);"))
m('coll-create-tag', 'P18', CA, ("(OSHMPI_global.team_world_comm, strided_group, PE_start /* tag */ , comm)", "(OSHMPI_global.team_world_comm, strided_group, 0 /* tag */ , comm)"))
m('bcast-as-root-self', 'P14', CA, ("                                 (void *) source : dest, nelems, mpi_type, PE_root, comm);", "                                 (void *) source : dest, nelems, mpi_type, PE_root, comm);\n    if (root_wpe == OSHMPI_global.team_world_my_pe && nelems > 4096)\n        memcpy(dest, source, 1);"))
