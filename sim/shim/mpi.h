// The simulator's MPI interface (implemented in sim/engine/mpi.cc).  All ranks
// of a simulated job live in one process, so handles are small integers that
// index tables owned by the engine.
#ifndef VSIM_MPI_H
#define VSIM_MPI_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif

#define MPI_VERSION 3
#define MPI_SUBVERSION 1
#define OPEN_MPI 0

typedef int MPI_Comm;
typedef int MPI_Group;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Request;
typedef int MPI_Win;
typedef int MPI_Info;
typedef int MPI_Errhandler;
typedef int MPI_Message;
typedef int MPI_File;
typedef intptr_t MPI_Aint;
typedef long long MPI_Offset;
typedef long long MPI_Count;
typedef struct {
  int MPI_SOURCE, MPI_TAG, MPI_ERROR;
  long long count_;
} MPI_Status;
typedef void(MPI_User_function)(void*, void*, int*, MPI_Datatype*);
typedef void(MPI_Comm_errhandler_function)(MPI_Comm*, int*, ...);
typedef MPI_Comm_errhandler_function MPI_Comm_errhandler_fn;

#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_ANY_SOURCE (-2)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-3)
#define MPI_UNDEFINED (-32766)
#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define MPI_GROUP_NULL 0
#define MPI_REQUEST_NULL 0
#define MPI_WIN_NULL 0
#define MPI_INFO_NULL 0
#define MPI_OP_NULL 0
#define MPI_DATATYPE_NULL 0
#define MPI_ERRHANDLER_NULL 0
#define MPI_ERRORS_ARE_FATAL 1
#define MPI_ERRORS_RETURN 2
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_IN_PLACE ((void*)1)
#define MPI_MAX_ERROR_STRING 256
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_TAG_UB 7
#define MPI_COMM_TYPE_SHARED 1
#define MPI_LOCK_EXCLUSIVE 1
#define MPI_LOCK_SHARED 2
#define MPI_MODE_NOCHECK 1
#define MPI_MODE_NOSTORE 2
#define MPI_MODE_NOPUT 4
#define MPI_MODE_NOPRECEDE 8
#define MPI_MODE_NOSUCCEED 16
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3

/* datatype = (class << 8) | size ; class: 1 signed, 2 unsigned, 3 float */
#define MPI_BYTE               ((2 << 8) | 1)
#define MPI_PACKED             ((2 << 8) | 1)
#define MPI_CHAR               ((1 << 8) | 1)
#define MPI_SIGNED_CHAR        ((1 << 8) | 1)
#define MPI_UNSIGNED_CHAR      ((2 << 8) | 1)
#define MPI_SHORT              ((1 << 8) | 2)
#define MPI_UNSIGNED_SHORT     ((2 << 8) | 2)
#define MPI_INT                ((1 << 8) | 4)
#define MPI_UNSIGNED           ((2 << 8) | 4)
#define MPI_LONG               ((1 << 8) | 8)
#define MPI_UNSIGNED_LONG      ((2 << 8) | 8)
#define MPI_LONG_LONG          ((1 << 8) | 8)
#define MPI_LONG_LONG_INT      ((1 << 8) | 8)
#define MPI_UNSIGNED_LONG_LONG ((2 << 8) | 8)
#define MPI_FLOAT              ((3 << 8) | 4)
#define MPI_DOUBLE             ((3 << 8) | 8)
#define MPI_LONG_DOUBLE        ((3 << 8) | 16)
#define MPI_WCHAR              ((1 << 8) | 4)
#define MPI_INT8_T             ((1 << 8) | 1)
#define MPI_INT16_T            ((1 << 8) | 2)
#define MPI_INT32_T            ((1 << 8) | 4)
#define MPI_INT64_T            ((1 << 8) | 8)
#define MPI_UINT8_T            ((2 << 8) | 1)
#define MPI_UINT16_T           ((2 << 8) | 2)
#define MPI_UINT32_T           ((2 << 8) | 4)
#define MPI_UINT64_T           ((2 << 8) | 8)
#define MPI_CXX_BOOL           ((2 << 8) | 1)

#define MPI_MAX 1
#define MPI_MIN 2
#define MPI_SUM 3
#define MPI_PROD 4
#define MPI_LAND 5
#define MPI_BAND 6
#define MPI_LOR 7
#define MPI_BOR 8
#define MPI_LXOR 9
#define MPI_BXOR 10
#define MPI_REPLACE 11
#define MPI_NO_OP 12

int MPI_Init(int*, char***);
int MPI_Init_thread(int*, char***, int, int*);
int MPI_Initialized(int*);
int MPI_Finalized(int*);
int MPI_Finalize(void);
int MPI_Abort(MPI_Comm, int) __attribute__((noreturn));
double MPI_Wtime(void);
double MPI_Wtick(void);
int MPI_Get_version(int*, int*);
int MPI_Get_processor_name(char*, int*);
int MPI_Error_string(int, char*, int*);
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_dup(MPI_Comm, MPI_Comm*);
int MPI_Comm_free(MPI_Comm*);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm*);
int MPI_Comm_split_type(MPI_Comm, int, int, MPI_Info, MPI_Comm*);
int MPI_Comm_group(MPI_Comm, MPI_Group*);
int MPI_Comm_create_group(MPI_Comm, MPI_Group, int, MPI_Comm*);
int MPI_Comm_get_attr(MPI_Comm, int, void*, int*);
int MPI_Comm_create_errhandler(MPI_Comm_errhandler_function*, MPI_Errhandler*);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);
int MPI_Errhandler_free(MPI_Errhandler*);
int MPI_Group_incl(MPI_Group, int, int const*, MPI_Group*);
int MPI_Group_size(MPI_Group, int*);
int MPI_Group_rank(MPI_Group, int*);
int MPI_Group_free(MPI_Group*);

int MPI_Send(void const*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Isend(void const*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Issend(void const*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Iprobe(int, int, MPI_Comm, int*, MPI_Status*);
int MPI_Get_count(MPI_Status const*, MPI_Datatype, int*);
int MPI_Test(MPI_Request*, int*, MPI_Status*);
int MPI_Testall(int, MPI_Request*, int*, MPI_Status*);
int MPI_Testany(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Testsome(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Wait(MPI_Request*, MPI_Status*);
int MPI_Waitall(int, MPI_Request*, MPI_Status*);
int MPI_Cancel(MPI_Request*);
int MPI_Request_free(MPI_Request*);

int MPI_Barrier(MPI_Comm);
int MPI_Ibarrier(MPI_Comm, MPI_Request*);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Ibcast(void*, int, MPI_Datatype, int, MPI_Comm, MPI_Request*);
int MPI_Allreduce(void const*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Reduce(void const*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Gather(void const*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(void const*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);

int MPI_Alloc_mem(MPI_Aint, MPI_Info, void*);
int MPI_Free_mem(void*);
int MPI_Win_create(void*, MPI_Aint, int, MPI_Info, MPI_Comm, MPI_Win*);
int MPI_Win_free(MPI_Win*);
int MPI_Win_lock(int, int, int, MPI_Win);
int MPI_Win_unlock(int, MPI_Win);
int MPI_Win_lock_all(int, MPI_Win);
int MPI_Win_unlock_all(MPI_Win);
int MPI_Win_flush(int, MPI_Win);
int MPI_Win_flush_local(int, MPI_Win);
int MPI_Win_flush_all(MPI_Win);
int MPI_Win_flush_local_all(MPI_Win);
int MPI_Win_sync(MPI_Win);
int MPI_Win_fence(int, MPI_Win);
int MPI_Put(void const*, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win);
int MPI_Get(void*, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win);
int MPI_Rput(void const*, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win, MPI_Request*);
int MPI_Rget(void*, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win, MPI_Request*);
int MPI_Accumulate(void const*, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Op, MPI_Win);
int MPI_Raccumulate(void const*, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Op, MPI_Win, MPI_Request*);
int MPI_Fetch_and_op(void const*, void*, MPI_Datatype, int, MPI_Aint, MPI_Op, MPI_Win);

#ifdef __cplusplus
}
#endif
#endif
