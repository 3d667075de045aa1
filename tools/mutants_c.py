RT = 'src/shmem/rma_typed.c.tpl'; RS = 'src/shmem/rma_sized.c.tpl'; RM = 'src/shmem/rma.c'; ST = 'src/shmem/amo_std_typed.c.tpl'
ET = 'src/shmem/amo_ext_typed.c.tpl'; BT = 'src/shmem/amo_bitws_typed.c.tpl'; CT = 'src/shmem/coll_typed.c.tpl'; CL = 'src/shmem/coll.c'
CS = 'src/shmem/coll_activeset.c'; MM = 'src/shmem/mem.c'; PT = 'src/shmem/p2p_typed.c.tpl'; SE = 'src/shmem/setup.c'; OR = 'src/shmem/order.c'
# entry points with the wrong context
for n, f, old, new, p in [
    ('ctx-put-nbi', RT, "    OSHMPI_ctx_put_nbi(ctx, MPI_TYPE", "    OSHMPI_ctx_put_nbi(SHMEM_CTX_DEFAULT, MPI_TYPE", 'P24 P05'),
    ('ctx-p', RT, "    OSHMPI_ctx_put(ctx, MPI_TYPE, sizeof(TYPE), &value", "    OSHMPI_ctx_put(SHMEM_CTX_DEFAULT, MPI_TYPE, sizeof(TYPE), &value", 'P24 P05'),
    ('ctx-iput', RT, "    OSHMPI_ctx_iput(ctx, MPI_TYPE", "    OSHMPI_ctx_iput(SHMEM_CTX_DEFAULT, MPI_TYPE", 'P24 P05'),
    ('ctx-get-nbi', RT, "    OSHMPI_ctx_get_nbi(ctx, MPI_TYPE", "    OSHMPI_ctx_get_nbi(SHMEM_CTX_DEFAULT, MPI_TYPE", 'P24 P05'),
    ('ctx-putmem-nbi', RM, "    OSHMPI_ctx_put_nbi(ctx, MPI_BYTE", "    OSHMPI_ctx_put_nbi(SHMEM_CTX_DEFAULT, MPI_BYTE", 'P24 P05'),
    ('ctx-getmem-nbi', RM, "    OSHMPI_ctx_get_nbi(ctx, MPI_BYTE", "    OSHMPI_ctx_get_nbi(SHMEM_CTX_DEFAULT, MPI_BYTE", 'P24 P05'),
]:
    m(n, p, f, (old, new))
# sizes
m('put-chunk', 'P01', R, ("""    OSHMPI_FORCEINLINE()
        OSHMPI_CALLMPI(MPI_Put(origin_addr, (int) origin_count, origin_type, pe,
                               target_disp, (int) target_count, target_type, ictx->win));""", """    size_t _o = 0;
    int _sz;
    OSHMPI_CALLMPI(MPI_Type_size(origin_type, &_sz));
    while (origin_type == target_type && origin_count - _o > 16384) {
        OSHMPI_CALLMPI(MPI_Put((const char *) origin_addr + _o * _sz, 16384, origin_type, pe, target_disp + _o * _sz, 16384, target_type, ictx->win));
        _o += 16384;
    }
    OSHMPI_CALLMPI(MPI_Put((const char *) origin_addr + _o * _sz, (int) (origin_count % 16384 ? origin_count % 16384 : _o ? 0 : origin_count), origin_type, pe,
                               target_disp + _o * _sz, (int) (origin_count % 16384 ? origin_count % 16384 : _o ? 0 : origin_count), target_type, ictx->win));"""))
m('strided-300', 'P30 P01', SD, ("    OSHMPI_CALLMPI(MPI_Type_vector((int) nelems,", "    OSHMPI_CALLMPI(MPI_Type_vector((int) (nelems > 4096 ? 4096 : nelems),"))
m('strided-stride-100', 'P30 P01', SD, ("MPI_Type_vector((int) nelems, 1, (int) stride, mpi_type", "MPI_Type_vector((int) nelems, 1, (int) (signed char) stride, mpi_type"))
m('am-bytes32', 'P01', RA, ("    put_pkt->bytes = typesz * nelems;", "    put_pkt->bytes = (uint16_t) (typesz * nelems - 1) + 1;"))
m('collect-disp-short', 'P15', C, ("        rdispls[i] = rdispls[i - 1] + rcounts[i - 1];", "        rdispls[i] = (short) (rdispls[i - 1] + rcounts[i - 1]);"))
m('collect-disp-char-as', 'P15', CA, ("        rdispls[i] = rdispls[i - 1] + rcounts[i - 1];", "        rdispls[i] = (unsigned char) (rdispls[i - 1] + rcounts[i - 1]);"))
m('reduce-chunk-1024', 'P17', CA, ("                                     dest, count, mpi_type, op, comm);\n}", "                                     dest, count > 1024 ? count & ~3 : count, mpi_type, op, comm);\n}"))
m('reduce-inplace-adj', 'P17', CA, ("(source == dest) ? MPI_IN_PLACE", "(source == dest || (char *) dest + count == (char *) source) ? MPI_IN_PLACE"))
m('reduce-inplace-team', 'P17', C, ("(source == dest) ? MPI_IN_PLACE", "((const char *) source >= (char *) dest && (const char *) source <= (char *) dest + nreduce) ? MPI_IN_PLACE"))
m('a2as-nelems1', 'P16', CA, ("    OSHMPI_create_strided_dtype(nelems, sst, mpi_type, nelems * sst /* required extent */ ,", "    OSHMPI_create_strided_dtype(nelems, nelems == 1 ? 1 : sst, mpi_type, nelems * sst /* required extent */ ,"))
m('a2as-dst-eq', 'P16', C, ("    if (dst == sst) {\n        rdtype", "    if (dst == sst || (nelems == 1 && dst > 1)) {\n        rdtype"))
m('a2as-dst-eq-as', 'P16', CA, ("    if (dst == sst) {\n        rdtype", "    if ((dst & 7) == (sst & 7)) {\n        rdtype"))
m('bcast-big', 'P14', C, ("        memcpy(dest, source, nelems * (size_t) extent);", "        memcpy(dest, source, (unsigned short) (nelems * (size_t) extent - 1) + 1);"))
m('bcast-alias', 'P14', C, ("    if (PE_root == team->my_pe) {\n", "    if (PE_root == team->my_pe && (char *) dest != (char *) source + nelems) {\n"))
m('fcollect-inplace', 'P15', CA, ("    OSHMPI_am_progress_mpi_allgather(source, nelems, mpi_type, dest, nelems, mpi_type, comm);\n}", "    OSHMPI_am_progress_mpi_allgather(source, nelems, mpi_type, dest, nelems, mpi_type, nelems > 2048 ? OSHMPI_global.team_world_comm : comm);\n}"))
# memory
m('calloc-overflow', 'P20', ME, ("    ptr = mspace_calloc(OSHMPI_global.symm_heap_mspace, count, size);", "    ptr = mspace_malloc(OSHMPI_global.symm_heap_mspace, count * size);\n    if (ptr)\n        memset(ptr, 0, count * size);"))
m('align-small', 'P20', ME, ("mspace_memalign(OSHMPI_global.symm_heap_mspace, alignment, size)", "mspace_memalign(OSHMPI_global.symm_heap_mspace, alignment > 512 ? 512 : alignment, size)"))
m('realloc-shrink', 'P20 P21', ME, ("    /* All PEs have to be done with the old block before it is moved or freed */\n    if (ptr != NULL)", "    if (ptr != NULL && size > 64)"))
m('free-null', 'P20 P21', MM, ("        OSHMPI_free(ptr);\n}", "        if (ptr) OSHMPI_free(ptr);\n}"))
m('free-space-quiet', 'P21 P22', ME, ("    OSHMPI_barrier_all();\n\n    /* Check default symm heap */", "    if (OSHMPI_sobj_check_range(ptr, OSHMPI_global.symm_heap_attr)) OSHMPI_barrier_all();\n\n    /* Check default symm heap */"))
m('hints-malloc', 'P20 P21', MM, ("     * If the implementation cannot optimize, the behavior is same as shmem_malloc. */\n    void *ptr = NULL;\n    OSHMPI_NOINLINE_RECURSIVE()\n        ptr = OSHMPI_malloc(size);", "     */\n    void *ptr = NULL;\n    OSHMPI_NOINLINE_RECURSIVE()\n        ptr = OSHMPI_malloc(hints == SHMEM_MALLOC_SIGNAL_REMOTE && size > 8 ? 8 : size);"))
# ordering
m('quiet-space-break', 'P03', O, ("""        if (space->default_ictx.win != MPI_WIN_NULL)
            ctx_flush_impl(&space->default_ictx);
#endif
    }
    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);

    /* Ensure AM completion""", """        if (space->default_ictx.win == MPI_WIN_NULL)
            break;
        ctx_flush_impl(&space->default_ictx);
#endif
    }
    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);

    /* Ensure AM completion"""))
m('fence-one', 'P04', O, ("""    ctx_flush_impl(&OSHMPI_global.symm_heap_ictx);
    ctx_flush_impl(&OSHMPI_global.symm_data_ictx);
#endif

    /* Flush all space contexts */
    OSHMPI_space_t *space, *tmp;
    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
    LL_FOREACH_SAFE(OSHMPI_global.space_list.head, space, tmp) {
        int i;
        /* No window exists unless the space is attached */
        for (i = 0; space->ctx_list && i < space->config.num_contexts; i++)
            ctx_flush_impl(&(space->ctx_list[i].ictx));
#ifndef OSHMPI_ENABLE_DYNAMIC_WIN
        if (space->default_ictx.win != MPI_WIN_NULL)
            ctx_flush_impl(&space->default_ictx);
#endif
    }
    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);

    /* Ensure AM ordered""", """    if (CHECK_FLAG(OSHMPI_global.symm_heap_ictx.outstanding_op) && CHECK_FLAG(OSHMPI_global.symm_data_ictx.outstanding_op)) {
    ctx_flush_impl(&OSHMPI_global.symm_heap_ictx);
    ctx_flush_impl(&OSHMPI_global.symm_data_ictx);
    }
#endif

    /* Flush all space contexts */
    OSHMPI_space_t *space, *tmp;
    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
    LL_FOREACH_SAFE(OSHMPI_global.space_list.head, space, tmp) {
        int i;
        /* No window exists unless the space is attached */
        for (i = 0; space->ctx_list && i < space->config.num_contexts; i++)
            ctx_flush_impl(&(space->ctx_list[i].ictx));
#ifndef OSHMPI_ENABLE_DYNAMIC_WIN
        if (space->default_ictx.win != MPI_WIN_NULL)
            ctx_flush_impl(&space->default_ictx);
#endif
    }
    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);

    /* Ensure AM ordered"""))
m('barrier-all-heapflag', 'P10', C, ("    OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_data_ictx.win));\n#endif\n    /* Ensure AM completion", "    if (OSHMPIU_ATOMIC_FLAG_LOAD(OSHMPI_global.symm_heap_ictx.outstanding_op)) OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_data_ictx.win));\n#endif\n    /* Ensure AM completion"))
m('barrier-1pe', 'P10', CA, ("    MPI_Comm comm = MPI_COMM_NULL;\n\n    coll_flush_spaces();", "    MPI_Comm comm = MPI_COMM_NULL;\n\n    if (PE_size == 1) return;\n    coll_flush_spaces();"))
m('barrier-amflush-1pe', 'P10', CA, ("    OSHMPI_am_flush_all(SHMEM_CTX_DEFAULT);\n", "    if (PE_size > 2 || PE_start == 0) OSHMPI_am_flush_all(SHMEM_CTX_DEFAULT);\n"))
# atomics
m('amo-ctx-inc', 'P24 P05', ST, ("    OSHMPI_amo_post(ctx, MPI_TYPE", "    OSHMPI_amo_post(SHMEM_CTX_DEFAULT, MPI_TYPE"))
m('amo-float-nan', 'P07', AC, ("        if (*(c_type *) dest == *(c_type *) cond_ptr) \\", "        if ((long long) *(c_type *) dest == (long long) *(c_type *) cond_ptr) \\"))
m('amo-self-shortcut', 'P06', AI, ("    if (OSHMPI_ENABLE_DIRECT_AMO_RUNTIME)\n        ctx_cswap_impl", "    if (pe == OSHMPI_global.team_world_my_pe && OSHMPI_ENABLE_DIRECT_AMO_RUNTIME == 0) {\n        memcpy(oldval_ptr, dest, bytes);\n        if (!memcmp(dest, cond_ptr, bytes)) memcpy(dest, value_ptr, bytes);\n    } else if (OSHMPI_ENABLE_DIRECT_AMO_RUNTIME)\n        ctx_cswap_impl"))
m('amo-self-direct', 'P06 P09 P12', AI, ("    if (OSHMPI_ENABLE_DIRECT_AMO_RUNTIME)\n        ctx_fetch_op_impl", "    if (OSHMPI_ENABLE_DIRECT_AMO_RUNTIME && pe == OSHMPI_global.team_world_my_pe && op == MPI_REPLACE) {\n        memcpy(oldval_ptr, dest, bytes);\n        OSHMPI_CALLMPI(MPI_Win_sync(ictx->win));\n        memcpy(dest, value_ptr, bytes);\n    } else if (OSHMPI_ENABLE_DIRECT_AMO_RUNTIME)\n        ctx_fetch_op_impl"))
m('amo-post-self', 'P06', AI, ("    if (OSHMPI_ENABLE_DIRECT_AMO_RUNTIME)\n        ctx_set_op_impl", "    if (op == MPI_REPLACE && pe == OSHMPI_global.team_world_my_pe)\n        memcpy(dest, value_ptr, bytes);\n    else if (OSHMPI_ENABLE_DIRECT_AMO_RUNTIME)\n        ctx_set_op_impl"))
m('amo-fetch-nolocal', 'P02 P07', AI, ("    ctx_local_complete_impl(pe, ictx);\n\n    if (op == MPI_NO_OP)", "    if (op != MPI_NO_OP) ctx_local_complete_impl(pe, ictx);\n\n    if (op == MPI_NO_OP)"))
# p2p
m('wait-plain', 'P09', PP, ("    while (1) {                                                                                     \\\n        OSHMPI_CALLMPI(MPI_Fetch_and_op", "    while (1) {                                                                                     \\\n        if (*(volatile C_TYPE *) ivar == comp_value && comp_op == SHMEM_CMP_EQ) break;              \\\n        OSHMPI_CALLMPI(MPI_Fetch_and_op"))
m('test-progress-always-first', 'P09', PP, ("    OSHMPI_COMP(tmp_var, comp_op, comp_value, test_ret);                                       \\", "    OSHMPI_COMP((int) tmp_var, comp_op, (int) comp_value, test_ret);                                       \\"))
m('wait-no-progress-eq', 'P08 P09', PP, ("        OSHMPI_am_cb_progress();                                                                   \\", "        if (comp_op != SHMEM_CMP_LT && comp_op != SHMEM_CMP_LE) OSHMPI_am_cb_progress();           \\"))
# locks
m('lock-data-ictx', 'P12', L, ("    /* Reset my local bits. No one accesses to my next bits now. */\n    lock->next = 0;\n    OSHMPI_CALLMPI(MPI_Win_sync(ictx->win));\n\n    /* Claim", "    if (lock->last) lock->next = 0;\n    OSHMPI_CALLMPI(MPI_Win_sync(ictx->win));\n\n    /* Claim"))
m('lock-mask', 'P12', L, ("#define NEXT(a) (int)(a & NEXT_MASK)", "#define NEXT(a) (int)(a & 0x3)"))
m('lock-mask7', 'P12', L, ("#define NEXT(a) (int)(a & NEXT_MASK)", "#define NEXT(a) (int)(a & 0x7)"))
m('testlock-myid', 'P12', L, ("    if (curid == zero) {\n        OSHMPI_DBGMSG(\"locked", "    if (curid == zero || curid == myid) {\n        OSHMPI_DBGMSG(\"locked"))
# teams
m('split-world-group', 'P19', TS, ("        src_group = _src_team->group;", "        src_group = _src_team->n_pes > 1 ? _src_team->group : OSHMPI_global.team_world_group;"))
m('split-end', 'P19', TS, ("(_parent_team->my_pe <= end_pe)", "(_parent_team->my_pe <= start + stride * size && _parent_team->my_pe < start + size * stride)"))
m('split-stride1', 'P19', TS, ("        && ((_parent_team->my_pe - start) % stride == 0);", "        && ((_parent_team->my_pe % stride) == (start ? start % stride : 0) || size == 1);"))
m('split2d-ceil', 'P19', TS, ("    int x_pos = _parent_team->my_pe % xrange;\n    int y_pos = _parent_team->my_pe / xrange;", "    int yr = (_parent_team->n_pes + xrange - 1) / xrange;\n    int y_pos = _parent_team->my_pe / xrange;\n    int x_pos = _parent_team->my_pe - y_pos * xrange;\n    if (yr > 3) y_pos = y_pos > 2 ? 2 : y_pos;"))
m('team-config-y', 'P19', TS, ("            _new_y_team->config = *yaxis_config;", "            _new_y_team->config = xaxis_config ? *xaxis_config : *yaxis_config;"))
m('team-key', 'P19', T, ("MPI_Comm_split(team->comm, color, team->my_pe, &new_comm)", "MPI_Comm_split(team->comm, color, team->my_pe & 3, &new_comm)"))
# spaces
m('attach-info-leak', 'P27 P25', SP, ("    OSHMPI_CALLMPI(MPI_Info_free(&info));", "    if (space->config.num_contexts == 0) OSHMPI_CALLMPI(MPI_Info_free(&info));"))
m('vtype-leak', 'P27', SD, ("    if (required_ext_nelems > 0)\n        OSHMPI_CALLMPI(MPI_Type_free(&vtype));", "    if (required_ext_nelems > nelems)\n        OSHMPI_CALLMPI(MPI_Type_free(&vtype));"))
m('space-ctx-options', 'P24', SP, ("        if (OSHMPIU_ATOMIC_FLAG_CAS(space->ctx_list[i].used_flag, 0, 1) == 0) {", "        if ((options & SHMEM_CTX_PRIVATE) || OSHMPIU_ATOMIC_FLAG_CAS(space->ctx_list[i].used_flag, 0, 1) == 0) {"))
m('space-attach-idx-first', 'P23', SP, ("symm_flag, space_attach_idx);\n    space_attach_idx++;", "symm_flag, space_attach_idx);\n    if (space_attach_idx < 3) space_attach_idx++;"))
m('space-align-pg', 'P22 P20', SP, ("    return OSHMPI_space_malloc(space, alignment <= OSHMPI_global.page_sz ? size : 0);", "    return OSHMPI_space_malloc(space, size);"))
m('space-calloc-ovf', 'P22 P20', SP, ("    if (size == 0 || count <= space->sobj_attr.size / size)\n        ptr", "    ptr"))
# am
m('am-post-rndv', 'P08', AP, ("        OSHMPI_CALLMPI(MPI_Isend(buf, count, datatype, dest, tag, comm, &am_mpi_req));\n        OSHMPI_AM_PROGRESS_MPI(am_mpi_req, MPI_STATUS_IGNORE);", "        if (dest == OSHMPI_global.team_world_my_pe + 1) { OSHMPI_CALLMPI(MPI_Send(buf, count, datatype, dest, tag, comm)); return; }\n        OSHMPI_CALLMPI(MPI_Isend(buf, count, datatype, dest, tag, comm, &am_mpi_req));\n        OSHMPI_AM_PROGRESS_MPI(am_mpi_req, MPI_STATUS_IGNORE);"))
m('am-flush-range', 'P10 P03', AM, ("                    OSHMPI_global.team_world_n_pes /* PE_size */);", "                    OSHMPI_global.team_world_n_pes > 4 ? 4 : OSHMPI_global.team_world_n_pes /* PE_size */);"))
m('am-flush-after-reset', 'P29 P03', AM, ("        OSHMPI_RESET_OUTSTANDING_FLAG(OSHMPI_am.outstanding_op_flags[pe]);\n    }\n}", "        if (nreqs > 1) OSHMPI_RESET_OUTSTANDING_FLAG(OSHMPI_am.outstanding_op_flags[i]);\n    }\n}"))
m('am-iput-noflag1', 'P03', RA, ("    /* Indicate outstanding AM */\n    OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 1);\n    OSHMPI_free_strided", "    /* Indicate outstanding AM */\n    if (nelems > 1) OSHMPIU_ATOMIC_FLAG_STORE(OSHMPI_am.outstanding_op_flags[pe], 1);\n    OSHMPI_free_strided"))
