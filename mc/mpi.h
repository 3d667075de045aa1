/* Simulated MPI used by the model checker. Not an MPI library. */
#ifndef MC_MPI_H
#define MC_MPI_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
#define MPI_VERSION 3
#define MPI_SUBVERSION 1
typedef int MPI_Comm, MPI_Group, MPI_Datatype, MPI_Op, MPI_Win, MPI_Info, MPI_Request, MPI_Errhandler, MPI_Message;
typedef ptrdiff_t MPI_Aint;
typedef long long MPI_Count, MPI_Offset;
typedef struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; int mc_count; } MPI_Status;
typedef int MPI_T_cvar_handle, MPI_T_pvar_handle, MPI_T_enum;
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_T_ERR_INVALID_NAME 74
#define MPI_T_ERR_NOT_INITIALIZED 60
#define MPI_MAX_INFO_VAL 256
#define MPI_MAX_INFO_KEY 64
#define MPI_MAX_PROCESSOR_NAME 128
#define MPI_MAX_ERROR_STRING 128
#define MPI_MAX_OBJECT_NAME 64
#define MPI_UNDEFINED (-32766)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_ROOT (-3)
#define MPI_IN_PLACE ((void *) -1)
#define MPI_BOTTOM ((void *) 0)
#define MPI_STATUS_IGNORE ((MPI_Status *) 0)
#define MPI_STATUSES_IGNORE ((MPI_Status *) 0)
#define MPI_ARGV_NULL ((char **) 0)
#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define MPI_GROUP_NULL 0
#define MPI_GROUP_EMPTY 1
#define MPI_WIN_NULL 0
#define MPI_INFO_NULL 0
#define MPI_INFO_ENV 1
#define MPI_REQUEST_NULL 0
#define MPI_ERRHANDLER_NULL 0
#define MPI_ERRORS_ARE_FATAL 1
#define MPI_ERRORS_RETURN 2
#define MPI_TAG_UB 1
#define MPI_WTIME_IS_GLOBAL 2
#define MPI_WIN_BASE 3
#define MPI_WIN_SIZE 4
#define MPI_WIN_DISP_UNIT 5
#define MPI_WIN_MODEL 6
#define MPI_WIN_UNIFIED 1
#define MPI_WIN_SEPARATE 2
#define MPI_COMM_TYPE_SHARED 1
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_MODE_NOCHECK 1
#define MPI_MODE_NOPRECEDE 2
#define MPI_MODE_NOPUT 4
#define MPI_MODE_NOSTORE 8
#define MPI_MODE_NOSUCCEED 16
#define MPI_LOCK_EXCLUSIVE 1
#define MPI_LOCK_SHARED 2
#define MPI_IDENT 0
#define MPI_CONGRUENT 1
#define MPI_SIMILAR 2
#define MPI_UNEQUAL 3
#define MPI_ORDER_C 0
/* predefined datatypes */
#define MPI_DATATYPE_NULL 0
#define MPI_BYTE 1
#define MPI_CHAR 2
#define MPI_SIGNED_CHAR 3
#define MPI_UNSIGNED_CHAR 4
#define MPI_SHORT 5
#define MPI_UNSIGNED_SHORT 6
#define MPI_INT 7
#define MPI_UNSIGNED 8
#define MPI_LONG 9
#define MPI_UNSIGNED_LONG 10
#define MPI_LONG_LONG 11
#define MPI_LONG_LONG_INT 11
#define MPI_UNSIGNED_LONG_LONG 12
#define MPI_FLOAT 13
#define MPI_DOUBLE 14
#define MPI_LONG_DOUBLE 15
#define MPI_INT8_T 16
#define MPI_INT16_T 17
#define MPI_INT32_T 18
#define MPI_INT64_T 19
#define MPI_UINT8_T 20
#define MPI_UINT16_T 21
#define MPI_UINT32_T 22
#define MPI_UINT64_T 23
#define MPI_C_COMPLEX 24
#define MPI_C_FLOAT_COMPLEX 24
#define MPI_C_DOUBLE_COMPLEX 25
#define MPI_C_LONG_DOUBLE_COMPLEX 26
#define MPI_AINT 27
#define MPI_C_BOOL 28
#define MPI_WCHAR 29
#define MPI_COUNT 30
#define MPI_OFFSET 31
#define MPI_PACKED 32
#define MC_NPRIM 33
#define MC_TYPE_BASE 64
/* ops */
#define MPI_OP_NULL 0
#define MPI_MAX 1
#define MPI_MIN 2
#define MPI_SUM 3
#define MPI_PROD 4
#define MPI_LAND 5
#define MPI_BAND 6
#define MPI_LOR 7
#define MPI_BOR 8
#define MPI_LXOR 9
#define MPI_BXOR 10
#define MPI_REPLACE 11
#define MPI_NO_OP 12

#define MCF(name, args) int name args;
#include "mpi_funcs.h"
#undef MCF
double MPI_Wtime(void);
MPI_Aint MPI_Aint_add(MPI_Aint base, MPI_Aint disp);
MPI_Aint MPI_Aint_diff(MPI_Aint a, MPI_Aint b);
#ifdef __cplusplus
}
#endif
#endif
