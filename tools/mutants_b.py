MP = 'src/internal/util/mem_pool.c'; U = 'src/include/oshmpi_util.h'; DL = 'src/internal/util/dlmalloc.c'; CC = 'src/internal/coll_impl.c'
# caches with a bound
m('dtype-cache-cap', 'P30 P27', SD, ("    LL_PREPEND(OSHMPI_strided_dtype_cache.head, dobj);\n    OSHMPI_strided_dtype_cache.nobjs++;", """    if (OSHMPI_strided_dtype_cache.nobjs >= 256) {
        OSHMPI_dtype_cache_obj_t *last = OSHMPI_strided_dtype_cache.head;
        OSHMPIU_free(dobj);
        last->nelems = nelems; last->stride = stride; last->dtype = mpi_type; last->ext_nelems = required_ext_nelems;
    } else {
    LL_PREPEND(OSHMPI_strided_dtype_cache.head, dobj);
    OSHMPI_strided_dtype_cache.nobjs++;
    }"""))
m('dtype-cache-nelems32', 'P30', SD, ("        if (dobj->nelems == nelems && dobj->stride == stride\n", "        if ((uint8_t) dobj->nelems == (uint8_t) nelems && dobj->stride == stride\n"))
m('dtype-cache-stride8', 'P30', SD, ("dobj->stride == stride\n", "(dobj->stride & 0x3f) == (stride & 0x3f)\n"))
m('comm-cache-cap', 'P18 P14 P11 P10', CA, ("    LL_PREPEND(OSHMPI_coll_comm_cache.head, cobj);\n    OSHMPI_coll_comm_cache.nobjs++;", """    if (OSHMPI_coll_comm_cache.nobjs >= 4) {
        OSHMPI_comm_cache_obj_t *h = OSHMPI_coll_comm_cache.head;
        h->pe_start = PE_start; h->pe_stride = logPE_stride; h->pe_size = PE_size;
        OSHMPIU_free(cobj);
    } else {
    LL_PREPEND(OSHMPI_coll_comm_cache.head, cobj);
    OSHMPI_coll_comm_cache.nobjs++;
    }"""))
m('comm-cache-skip-member', 'P18', CA, ("    OSHMPI_CALLMPI(MPI_Comm_create_group\n                   (OSHMPI_global.team_world_comm, strided_group, PE_start /* tag */ , comm));", "    OSHMPI_CALLMPI(MPI_Comm_create_group\n                   (OSHMPI_global.team_world_comm, strided_group, PE_size /* tag */ , comm));"))
# mem pool
m('pool-skip-one', 'P22', MP, ("            off += nused;\n", "            off++;\n"))
m('pool-chunks16', 'P22', MP, ("        mem_pool->chunks_nused[first_off] = nalloc;", "        mem_pool->chunks_nused[first_off] = nalloc > 8 ? 8 : nalloc;"))
m('pool-nav-ge', 'P22', MP, ("        if (navail == nalloc)   /* Found", "        if (navail >= nalloc - (off == mem_pool->nchunks))   /* Found"))
m('pool-nchunks', 'P22 P23', MP, ("    mem_pool->nchunks = aligned_mem_size / chunk_size;", "    mem_pool->nchunks = aligned_mem_size / chunk_size;\n    if (mem_pool->nchunks > 32) mem_pool->nchunks = 32;"))
m('pool-i-loop', 'P22', MP, ("    while (off < mem_pool->nchunks) {", "    while (off <= mem_pool->nchunks - nalloc || (navail && off < mem_pool->nchunks)) {"))
m('pool-free-next', 'P22', MP, ("    mem_pool->chunks_nused[off] = 0;\n}", "    unsigned int n = mem_pool->chunks_nused[off];\n    mem_pool->chunks_nused[off] = 0;\n    if (n > 1 && off + n < mem_pool->nchunks) mem_pool->chunks_nused[off + n - 1] = 0, mem_pool->chunks_nused[off + n] *= (n != 3);\n}"))
# AM
m('am-put-anysrc', 'P01 P03 P29', RC, ("    OSHMPI_CALLMPI(MPI_Recv(dest, put_pkt->bytes, MPI_BYTE, origin_rank,", "    OSHMPI_CALLMPI(MPI_Recv(dest, put_pkt->bytes, MPI_BYTE, MPI_ANY_SOURCE,"))
m('am-iput-anysrc', 'P01 P30', RC, ("    OSHMPI_CALLMPI(MPI_Recv(dest, target_count, target_type, origin_rank,", "    OSHMPI_CALLMPI(MPI_Recv(dest, target_count, target_type, MPI_ANY_SOURCE,"))
m('am-get-ackcomm', 'P01 P02', RC, ("    OSHMPI_CALLMPI(MPI_Send(dest, get_pkt->bytes, MPI_BYTE,\n                            origin_rank, get_pkt->ptag, OSHMPI_am.ack_comm));", "    OSHMPI_CALLMPI(MPI_Send(dest, get_pkt->bytes - (get_pkt->bytes > 4096), MPI_BYTE,\n                            origin_rank, get_pkt->ptag, OSHMPI_am.ack_comm));"))
m('am-fetch-any-ack', 'P06 P29', AA, ("    OSHMPI_CALLMPI(MPI_Irecv(oldval_ptr, 1, mpi_type, pe, fetch_pkt->ptag,", "    OSHMPI_CALLMPI(MPI_Irecv(oldval_ptr, 1, mpi_type, pe, MPI_ANY_TAG,"))
m('am-cswap-any-ack', 'P29', AA, ("    OSHMPI_CALLMPI(MPI_Irecv(oldval_ptr, 1, mpi_type, pe, cswap_pkt->ptag,", "    OSHMPI_CALLMPI(MPI_Irecv(oldval_ptr, 1, mpi_type, pe, MPI_ANY_TAG,"))
m('amo-post-heap-only', 'P04 P05', AA, ("    /* Indicate outstanding AMO */\n    OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 1);", "    /* Indicate outstanding AMO */\n    if (op != MPI_REPLACE || sobj_attr != &OSHMPI_global.symm_data_attr)\n    OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 1);"))
m('am-flush-half', 'P03 P10 P04', AM, ("    /* Reset all flags\n", "    if (noutstanding_pes > 1) nreqs = 0;\n    /* Reset all flags\n"), ("    OSHMPI_am_progress_mpi_waitall(nreqs, reqs, MPI_STATUS_IGNORE);", "    OSHMPI_am_progress_mpi_waitall(nreqs, reqs, MPI_STATUS_IGNORE);\n"))
m('am-flush-count', 'P03 P10', AM, ("        if (OSHMPIU_ATOMIC_FLAG_LOAD(OSHMPI_am.outstanding_op_flags[pe])) {\n", "        if (OSHMPIU_ATOMIC_FLAG_LOAD(OSHMPI_am.outstanding_op_flags[pe]) && (noutstanding_pes < 3 || nreqs < 2)) {\n"))
m('am-post-order', 'P06 P07', AC, ("                *(c_type *) (b_ptr) += *(c_type *) (a_ptr);                             \\\n                break;                                                                  \\\n            default:                                                                    \\\n                OSHMPI_ERR_ABORT(\"Unsupported MPI op index for integer", "                { c_type _t = *(c_type *) (b_ptr); _t += *(c_type *) (a_ptr); memcpy(b_ptr, &_t, sizeof(int) < sizeof(_t) && _t >> 31 == 0 ? sizeof(int) : sizeof(_t)); } \\\n                break;                                                                  \\\n            default:                                                                    \\\n                OSHMPI_ERR_ABORT(\"Unsupported MPI op index for integer"))
m('am-poll-terminate', 'P25', AMC, ("            *terminate_flag = 1;\n", "            *terminate_flag = source_rank == 0;\n"))
m('am-ldouble-tbl', 'P01 P30', AMC, ("[OSHMPI_AM_MPI_LONG_DOUBLE] = MPI_LONG_DOUBLE;", "[OSHMPI_AM_MPI_LONG_DOUBLE] = MPI_C_DOUBLE_COMPLEX;"))
m('am-u16-tbl', 'P01 P30', AMC, ("[OSHMPI_AM_MPI_UINT16_T] = MPI_UINT16_T;", "[OSHMPI_AM_MPI_UINT16_T] = MPI_UINT8_T;"))
# setup
m('ops-inc-missing', 'P26', SU, ("    if ((OSHMPI_env.amo_ops & (1 << OSHMPI_AMO_FINC)) || (OSHMPI_env.amo_ops) ||\n", "    if ((OSHMPI_env.amo_ops & (1 << OSHMPI_AMO_FINC)) ||\n"))
m('ops-xor-bor', 'P26', SU, ('"%sbxor", (c > 0) ? "," : "");\n        nops++;', '"%sbxor", (c > 0) ? "," : "");\n        nops |= 1;'))
m('ops-swap', 'P26', SU, ('        else if (!strncmp(token, "swap", strlen("swap")))\n            ops |= (1 << OSHMPI_AMO_SWAP);', '        else if (!strncmp(token, "swap", strlen("swap")))\n            ops |= (1 << OSHMPI_AMO_CSWAP);'))
m('heap-truesize', 'P26 P20', SU, ("    true_size = size + OSHMPI_DLMALLOC_MIN_MSPACE_SIZE;\n    true_size = OSHMPI_ALIGN(true_size, OSHMPI_global.page_sz);\n    OSHMPI_global.symm_heap_true_size = true_size;\n\n    /* Allocate RMA window */", "    true_size = size < (1 << 16) ? size + OSHMPI_DLMALLOC_MIN_MSPACE_SIZE : size;\n    true_size = OSHMPI_ALIGN(true_size, OSHMPI_global.page_sz);\n    OSHMPI_global.symm_heap_true_size = true_size;\n\n    /* Allocate RMA window */"))
m('data-size-8', 'P28 P01', SU, ("#define OSHMPI_DATA_SIZE ((char *) &_end - (char *) &__data_start)\n#elif defined(USE_OSX)", "#define OSHMPI_DATA_SIZE (((char *) &_end - (char *) &__data_start) & ~(size_t) 63)\n#elif defined(USE_OSX)"))
m('str-size-K', 'P26', U, ("val *= 1024. * 1024. * 1024.;", "val *= 1024. * 1024. * 1000.;"))
m('str-size-ceil', 'P26', U, ("    uint64_t ret_val = ceil(val);", "    uint64_t ret_val = (uint32_t) ceil(val);"))
m('init-level', 'P25', SU, ("    OSHMPI_global.thread_level = shm_provided;", "    OSHMPI_global.thread_level = mpi_provided;"))
m('init-shared-npes', 'P19', SU, ("    OSHMPI_global.team_shared->n_pes = OSHMPI_global.team_shared_n_pes;", "    OSHMPI_global.team_shared->n_pes = OSHMPI_global.team_world_n_pes;"))
m('fin-quiet-first', 'P25', SU, ("    OSHMPI_coll_finalize();\n    OSHMPI_am_finalize();", "    OSHMPI_am_finalize();"))
m('implicit-fin', 'P25', SU, ("    if (OSHMPI_global.is_start_pes_initialized && OSHMPI_global.is_initialized)\n        finalize_impl();", "    if (OSHMPI_global.is_start_pes_initialized && OSHMPI_global.is_initialized && OSHMPI_global.team_world_n_pes > 2)\n        finalize_impl();"))
# space
m('space-handle-idx4', 'P27 P23', SP, ("                           symm_flag, space_attach_idx);\n    space_attach_idx++;", "                           symm_flag, space_attach_idx);\n    space_attach_idx = (space_attach_idx + 1) & 7;"))
m('space-handle-idx1', 'P23', SP, ("                           symm_flag, space_attach_idx);\n    space_attach_idx++;", "                           symm_flag, space_attach_idx);\n    space_attach_idx = !space_attach_idx;"))
m('space-handle-ctx', 'P05 P23 P24', SP, ("            ctx_list[i].sobj_attr = space->sobj_attr;", "            ctx_list[i].sobj_attr = space->sobj_attr;\n            ctx_list[i].sobj_attr.handle -= i > 1;"))
m('space-ctx-win', 'P05 P24', SP, ("            space_ictx_create(space->sobj_attr.base, (MPI_Aint) space->sobj_attr.size,\n                              info, &ctx_list[i].ictx);", "            space_ictx_create(space->sobj_attr.base, (MPI_Aint) space->sobj_attr.size - (i > 0 ? OSHMPI_global.page_sz : 0),\n                              info, &ctx_list[i].ictx);"))
m('space-delete-2', 'P23', SP, ("    LL_DELETE(OSHMPI_global.space_list.head, space);\n    OSHMPI_global.space_list.nspaces--;", "    if (OSHMPI_global.space_list.head == space) OSHMPI_global.space_list.head = NULL;\n    else LL_DELETE(OSHMPI_global.space_list.head, space);\n    OSHMPI_global.space_list.nspaces--;"))
m('space-detach-used', 'P24', SP, ("            OSHMPIU_ATOMIC_FLAG_STORE(ctx_list[i].used_flag, 0);\n", "            if (i) OSHMPIU_ATOMIC_FLAG_STORE(ctx_list[i].used_flag, 0);\n"))
m('range-le', 'P28 P01', OI, ("OSHMPI_sobj_check_range(abs_addr, OSHMPI_global.symm_heap_attr)) {\n#ifdef", "(char *) abs_addr < (char *) OSHMPI_global.symm_heap_attr.base + OSHMPI_global.symm_heap_attr.size && (char *) abs_addr >= (char *) OSHMPI_global.symm_heap_attr.base + (target_rank > 1 ? 16 : 0)) {\n#ifdef"))
m('reset-flag-strict', 'P29', OI, ("        if (OSHMPI_global.thread_level != SHMEM_THREAD_MULTIPLE)    \\\n", "        if (1)    \\\n"))
# mem
m('realloc-barrier2', 'P21', ME, ("    OSHMPI_DBGMSG(\"ptr %p size %ld -> %p\\n\", ptr, size, rptr);\n    OSHMPI_barrier_all();", "    OSHMPI_DBGMSG(\"ptr %p size %ld -> %p\\n\", ptr, size, rptr);\n    if (rptr != ptr) OSHMPI_barrier_all();"))
m('free-space-first', 'P22 P23', ME, ("            if (OSHMPI_sobj_check_range(ptr, space->sobj_attr)) {\n                OSHMPI_space_free(space, ptr);\n                break;", "            if ((char *) ptr >= (char *) space->sobj_attr.base) {\n                OSHMPI_space_free(space, ptr);\n                break;"))
# dlmalloc

