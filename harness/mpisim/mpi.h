/* A simulated MPI for one process: every rank is a thread, one runs at a time, and
 * a seeded scheduler decides who goes next, which sends are buffered and when
 * data moves. Only what a small library may reasonably use is provided. */
#ifndef VERIF_SIM_MPI_H
#define VERIF_SIM_MPI_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct sim_comm* MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef struct sim_req* MPI_Request;
typedef struct sim_req* MPI_Message;
typedef int MPI_Errhandler;
typedef ptrdiff_t MPI_Aint;
typedef long long MPI_Count;
typedef long long MPI_Offset;
typedef struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; size_t sim_bytes; } MPI_Status;

MPI_Comm sim_world(void);
MPI_Comm sim_self(void);
#define MPI_COMM_WORLD (sim_world())
#define MPI_COMM_SELF (sim_self())
#define MPI_COMM_NULL ((MPI_Comm)0)
#define MPI_REQUEST_NULL ((MPI_Request)0)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_IN_PLACE ((void*)-1)
#define MPI_BOTTOM ((void*)0)
#define MPI_PROC_NULL (-2)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_ROOT (-4)
#define MPI_UNDEFINED (-32766)
#define MPI_SUCCESS 0
#define MPI_MESSAGE_NULL ((MPI_Message)0)
#define MPI_ERRORS_ARE_FATAL 1
#define MPI_ERRORS_RETURN 2
#define MPI_IDENT 0
#define MPI_CONGRUENT 1
#define MPI_SIMILAR 2
#define MPI_UNEQUAL 3
#define MPI_ERR_OTHER 16
#define MPI_MAX_ERROR_STRING 256
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_TAG_UB 1
#define MPI_VERSION 3
#define MPI_SUBVERSION 1
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3

#define MPI_DATATYPE_NULL 0
/* low byte: size, next: kind (1 signed, 2 unsigned, 3 floating, 4 pair), rest: id */
#define SIM_T(id, kind, size) (((id) << 16) | ((kind) << 8) | (int)(size))
#define MPI_CHAR SIM_T(1, 1, 1)
#define MPI_SIGNED_CHAR SIM_T(2, 1, 1)
#define MPI_UNSIGNED_CHAR SIM_T(3, 2, 1)
#define MPI_BYTE SIM_T(4, 2, 1)
#define MPI_PACKED SIM_T(5, 2, 1)
#define MPI_SHORT SIM_T(6, 1, sizeof(short))
#define MPI_UNSIGNED_SHORT SIM_T(7, 2, sizeof(short))
#define MPI_INT SIM_T(8, 1, sizeof(int))
#define MPI_UNSIGNED SIM_T(9, 2, sizeof(int))
#define MPI_LONG SIM_T(10, 1, sizeof(long))
#define MPI_UNSIGNED_LONG SIM_T(11, 2, sizeof(long))
#define MPI_LONG_LONG SIM_T(12, 1, sizeof(long long))
#define MPI_LONG_LONG_INT MPI_LONG_LONG
#define MPI_UNSIGNED_LONG_LONG SIM_T(13, 2, sizeof(long long))
#define MPI_FLOAT SIM_T(14, 3, sizeof(float))
#define MPI_DOUBLE SIM_T(15, 3, sizeof(double))
#define MPI_INT8_T SIM_T(16, 1, 1)
#define MPI_INT16_T SIM_T(17, 1, 2)
#define MPI_INT32_T SIM_T(18, 1, 4)
#define MPI_INT64_T SIM_T(19, 1, 8)
#define MPI_UINT8_T SIM_T(20, 2, 1)
#define MPI_UINT16_T SIM_T(21, 2, 2)
#define MPI_UINT32_T SIM_T(22, 2, 4)
#define MPI_UINT64_T SIM_T(23, 2, 8)
#define MPI_C_BOOL SIM_T(24, 2, 1)
#define MPI_2INT SIM_T(25, 4, 2 * sizeof(int))
#define MPI_AINT MPI_INT64_T
#define MPI_COUNT SIM_T(26, 1, sizeof(long long))
#define MPI_OFFSET SIM_T(27, 1, sizeof(long long))

#define MPI_OP_NULL 0
#define MPI_MAX 1
#define MPI_MIN 2
#define MPI_SUM 3
#define MPI_PROD 4
#define MPI_LAND 5
#define MPI_BAND 6
#define MPI_LOR 7
#define MPI_BOR 8
#define MPI_LXOR 9
#define MPI_BXOR 10
#define MPI_MAXLOC 11
#define MPI_MINLOC 12

int MPI_Init(int*, char***);
int MPI_Init_thread(int*, char***, int, int*);
int MPI_Initialized(int*);
int MPI_Finalized(int*);
int MPI_Finalize(void);
int MPI_Abort(MPI_Comm, int);
double MPI_Wtime(void);
int MPI_Get_processor_name(char*, int*);
int MPI_Error_string(int, char*, int*);
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_dup(MPI_Comm, MPI_Comm*);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm*);
int MPI_Comm_free(MPI_Comm*);
int MPI_Type_size(MPI_Datatype, int*);
int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype*);
int MPI_Type_commit(MPI_Datatype*);
int MPI_Type_free(MPI_Datatype*);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);
int MPI_Comm_compare(MPI_Comm, MPI_Comm, int*);
double MPI_Wtick(void);
int MPI_Irsend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Waitsome(int, MPI_Request[], int*, int[], MPI_Status[]);
int MPI_Testany(int, MPI_Request[], int*, int*, MPI_Status*);
int MPI_Sendrecv_replace(void*, int, MPI_Datatype, int, int, int, int, MPI_Comm, MPI_Status*);
int MPI_Mprobe(int, int, MPI_Comm, MPI_Message*, MPI_Status*);
int MPI_Mrecv(void*, int, MPI_Datatype, MPI_Message*, MPI_Status*);
int MPI_Imrecv(void*, int, MPI_Datatype, MPI_Message*, MPI_Request*);
int MPI_Scatterv(const void*, const int[], const int[], MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce_scatter_block(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Rsend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Issend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Wait(MPI_Request*, MPI_Status*);
int MPI_Waitall(int, MPI_Request[], MPI_Status[]);
int MPI_Waitany(int, MPI_Request[], int*, MPI_Status*);
int MPI_Test(MPI_Request*, int*, MPI_Status*);
int MPI_Testall(int, MPI_Request[], int*, MPI_Status[]);
int MPI_Probe(int, int, MPI_Comm, MPI_Status*);
int MPI_Iprobe(int, int, MPI_Comm, int*, MPI_Status*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
int MPI_Sendrecv(const void*, int, MPI_Datatype, int, int, void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Scan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Exscan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gatherv(const void*, int, MPI_Datatype, void*, const int[], const int[], MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int[], const int[], MPI_Datatype, MPI_Comm);
int MPI_Scatter(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Alltoall(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Alltoallv(const void*, const int[], const int[], MPI_Datatype, void*, const int[], const int[], MPI_Datatype, MPI_Comm);
#ifdef __cplusplus
}
#endif
#endif
