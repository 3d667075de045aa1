MCF(MPI_Init, (int *, char ***))
MCF(MPI_Init_thread, (int *, char ***, int, int *))
MCF(MPI_Initialized, (int *))
MCF(MPI_Finalized, (int *))
MCF(MPI_Finalize, (void))
MCF(MPI_Query_thread, (int *))
MCF(MPI_Is_thread_main, (int *))
MCF(MPI_Abort, (MPI_Comm, int))
MCF(MPI_Get_processor_name, (char *, int *))
MCF(MPI_Get_version, (int *, int *))
MCF(MPI_Error_string, (int, char *, int *))
MCF(MPI_T_init_thread, (int, int *))
MCF(MPI_T_finalize, (void))
MCF(MPI_T_cvar_get_index, (const char *, int *))
MCF(MPI_T_cvar_handle_alloc, (int, void *, MPI_T_cvar_handle *, int *))
MCF(MPI_T_cvar_handle_free, (MPI_T_cvar_handle *))
MCF(MPI_T_cvar_read, (MPI_T_cvar_handle, void *))
MCF(MPI_T_cvar_write, (MPI_T_cvar_handle, const void *))
MCF(MPI_Comm_size, (MPI_Comm, int *))
MCF(MPI_Comm_rank, (MPI_Comm, int *))
MCF(MPI_Comm_dup, (MPI_Comm, MPI_Comm *))
MCF(MPI_Comm_dup_with_info, (MPI_Comm, MPI_Info, MPI_Comm *))
MCF(MPI_Comm_idup, (MPI_Comm, MPI_Comm *, MPI_Request *))
MCF(MPI_Comm_split, (MPI_Comm, int, int, MPI_Comm *))
MCF(MPI_Comm_split_type, (MPI_Comm, int, int, MPI_Info, MPI_Comm *))
MCF(MPI_Comm_create, (MPI_Comm, MPI_Group, MPI_Comm *))
MCF(MPI_Comm_create_group, (MPI_Comm, MPI_Group, int, MPI_Comm *))
MCF(MPI_Comm_free, (MPI_Comm *))
MCF(MPI_Comm_group, (MPI_Comm, MPI_Group *))
MCF(MPI_Comm_compare, (MPI_Comm, MPI_Comm, int *))
MCF(MPI_Comm_get_attr, (MPI_Comm, int, void *, int *))
MCF(MPI_Comm_set_errhandler, (MPI_Comm, MPI_Errhandler))
MCF(MPI_Comm_set_name, (MPI_Comm, const char *))
MCF(MPI_Comm_set_info, (MPI_Comm, MPI_Info))
MCF(MPI_Group_size, (MPI_Group, int *))
MCF(MPI_Group_rank, (MPI_Group, int *))
MCF(MPI_Group_incl, (MPI_Group, int, const int *, MPI_Group *))
MCF(MPI_Group_excl, (MPI_Group, int, const int *, MPI_Group *))
MCF(MPI_Group_range_incl, (MPI_Group, int, int[][3], MPI_Group *))
MCF(MPI_Group_translate_ranks, (MPI_Group, int, const int *, MPI_Group, int *))
MCF(MPI_Group_compare, (MPI_Group, MPI_Group, int *))
MCF(MPI_Group_free, (MPI_Group *))
MCF(MPI_Send, (const void *, int, MPI_Datatype, int, int, MPI_Comm))
MCF(MPI_Ssend, (const void *, int, MPI_Datatype, int, int, MPI_Comm))
MCF(MPI_Rsend, (const void *, int, MPI_Datatype, int, int, MPI_Comm))
MCF(MPI_Isend, (const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *))
MCF(MPI_Issend, (const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *))
MCF(MPI_Recv, (void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *))
MCF(MPI_Irecv, (void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *))
MCF(MPI_Sendrecv, (const void *, int, MPI_Datatype, int, int, void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *))
MCF(MPI_Probe, (int, int, MPI_Comm, MPI_Status *))
MCF(MPI_Iprobe, (int, int, MPI_Comm, int *, MPI_Status *))
MCF(MPI_Get_count, (const MPI_Status *, MPI_Datatype, int *))
MCF(MPI_Wait, (MPI_Request *, MPI_Status *))
MCF(MPI_Test, (MPI_Request *, int *, MPI_Status *))
MCF(MPI_Waitall, (int, MPI_Request[], MPI_Status[]))
MCF(MPI_Testall, (int, MPI_Request[], int *, MPI_Status[]))
MCF(MPI_Waitany, (int, MPI_Request[], int *, MPI_Status *))
MCF(MPI_Testany, (int, MPI_Request[], int *, int *, MPI_Status *))
MCF(MPI_Waitsome, (int, MPI_Request[], int *, int[], MPI_Status[]))
MCF(MPI_Testsome, (int, MPI_Request[], int *, int[], MPI_Status[]))
MCF(MPI_Request_free, (MPI_Request *))
MCF(MPI_Request_get_status, (MPI_Request, int *, MPI_Status *))
MCF(MPI_Cancel, (MPI_Request *))
MCF(MPI_Test_cancelled, (const MPI_Status *, int *))
MCF(MPI_Barrier, (MPI_Comm))
MCF(MPI_Bcast, (void *, int, MPI_Datatype, int, MPI_Comm))
MCF(MPI_Allgather, (const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm))
MCF(MPI_Allgatherv, (const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm))
MCF(MPI_Gather, (const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm))
MCF(MPI_Scatter, (const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm))
MCF(MPI_Alltoall, (const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm))
MCF(MPI_Alltoallv, (const void *, const int *, const int *, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm))
MCF(MPI_Allreduce, (const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm))
MCF(MPI_Reduce, (const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm))
MCF(MPI_Scan, (const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm))
MCF(MPI_Exscan, (const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm))
MCF(MPI_Ibarrier, (MPI_Comm, MPI_Request *))
MCF(MPI_Ibcast, (void *, int, MPI_Datatype, int, MPI_Comm, MPI_Request *))
MCF(MPI_Iallgather, (const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm, MPI_Request *))
MCF(MPI_Iallgatherv, (const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm, MPI_Request *))
MCF(MPI_Ialltoall, (const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm, MPI_Request *))
MCF(MPI_Ialltoallv, (const void *, const int *, const int *, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm, MPI_Request *))
MCF(MPI_Iallreduce, (const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Request *))
MCF(MPI_Ireduce, (const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm, MPI_Request *))
MCF(MPI_Type_size, (MPI_Datatype, int *))
MCF(MPI_Type_get_extent, (MPI_Datatype, MPI_Aint *, MPI_Aint *))
MCF(MPI_Type_get_true_extent, (MPI_Datatype, MPI_Aint *, MPI_Aint *))
MCF(MPI_Type_contiguous, (int, MPI_Datatype, MPI_Datatype *))
MCF(MPI_Type_vector, (int, int, int, MPI_Datatype, MPI_Datatype *))
MCF(MPI_Type_create_hvector, (int, int, MPI_Aint, MPI_Datatype, MPI_Datatype *))
MCF(MPI_Type_create_resized, (MPI_Datatype, MPI_Aint, MPI_Aint, MPI_Datatype *))
MCF(MPI_Type_dup, (MPI_Datatype, MPI_Datatype *))
MCF(MPI_Type_commit, (MPI_Datatype *))
MCF(MPI_Type_free, (MPI_Datatype *))
MCF(MPI_Info_create, (MPI_Info *))
MCF(MPI_Info_dup, (MPI_Info, MPI_Info *))
MCF(MPI_Info_set, (MPI_Info, const char *, const char *))
MCF(MPI_Info_get, (MPI_Info, const char *, int, char *, int *))
MCF(MPI_Info_delete, (MPI_Info, const char *))
MCF(MPI_Info_free, (MPI_Info *))
MCF(MPI_Alloc_mem, (MPI_Aint, MPI_Info, void *))
MCF(MPI_Free_mem, (void *))
MCF(MPI_Get_address, (const void *, MPI_Aint *))
MCF(MPI_Win_create, (void *, MPI_Aint, int, MPI_Info, MPI_Comm, MPI_Win *))
MCF(MPI_Win_allocate, (MPI_Aint, int, MPI_Info, MPI_Comm, void *, MPI_Win *))
MCF(MPI_Win_create_dynamic, (MPI_Info, MPI_Comm, MPI_Win *))
MCF(MPI_Win_attach, (MPI_Win, void *, MPI_Aint))
MCF(MPI_Win_detach, (MPI_Win, const void *))
MCF(MPI_Win_free, (MPI_Win *))
MCF(MPI_Win_lock, (int, int, int, MPI_Win))
MCF(MPI_Win_unlock, (int, MPI_Win))
MCF(MPI_Win_lock_all, (int, MPI_Win))
MCF(MPI_Win_unlock_all, (MPI_Win))
MCF(MPI_Win_flush, (int, MPI_Win))
MCF(MPI_Win_flush_all, (MPI_Win))
MCF(MPI_Win_flush_local, (int, MPI_Win))
MCF(MPI_Win_flush_local_all, (MPI_Win))
MCF(MPI_Win_sync, (MPI_Win))
MCF(MPI_Win_get_attr, (MPI_Win, int, void *, int *))
MCF(MPI_Win_get_group, (MPI_Win, MPI_Group *))
MCF(MPI_Win_set_info, (MPI_Win, MPI_Info))
MCF(MPI_Win_set_errhandler, (MPI_Win, MPI_Errhandler))
MCF(MPI_Put, (const void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win))
MCF(MPI_Get, (void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win))
MCF(MPI_Accumulate, (const void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Op, MPI_Win))
MCF(MPI_Get_accumulate, (const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Op, MPI_Win))
MCF(MPI_Fetch_and_op, (const void *, void *, MPI_Datatype, int, MPI_Aint, MPI_Op, MPI_Win))
MCF(MPI_Compare_and_swap, (const void *, const void *, void *, MPI_Datatype, int, MPI_Aint, MPI_Win))
MCF(MPI_Rput, (const void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win, MPI_Request *))
MCF(MPI_Rget, (void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win, MPI_Request *))
MCF(MPI_Raccumulate, (const void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Op, MPI_Win, MPI_Request *))
MCF(MPI_Reduce_local, (const void *, void *, int, MPI_Datatype, MPI_Op))
MCF(MPI_Pcontrol, (const int, ...))
