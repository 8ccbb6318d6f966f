/* Stand-in for MPI: ranks are simulated processes inside one OS process (see /verif/sim/core.cpp). */
#ifndef SIM_MPI_H
#define SIM_MPI_H
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Info;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; } MPI_Status;
#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define MPI_SUCCESS 0
#define MPI_INFO_NULL 0
#define MPI_COMM_TYPE_SHARED 1
#define MPI_IN_PLACE ((void *)-1)
#define MPI_UNDEFINED (-32766)
#define MPI_CHAR 0x101
#define MPI_BYTE 0x102
#define MPI_INT8_T 0x103
#define MPI_UINT8_T 0x104
#define MPI_SHORT 0x205
#define MPI_INT 0x406
#define MPI_UNSIGNED 0x407
#define MPI_INT32_T 0x406
#define MPI_UINT32_T 0x407
#define MPI_FLOAT 0x408
#define MPI_LONG 0x809
#define MPI_LONG_LONG 0x809
#define MPI_LONG_LONG_INT 0x809
#define MPI_INT64_T 0x809
#define MPI_UNSIGNED_LONG 0x80a
#define MPI_UNSIGNED_LONG_LONG 0x80a
#define MPI_UINT64_T 0x80a
#define MPI_DOUBLE 0x80b
#define MPI_SUM 1
#define MPI_MAX 2
#define MPI_MIN 3
#define MPI_MAX_PROCESSOR_NAME 256
double MPI_Wtime(void);
int MPI_Init(int *, char ***);
int MPI_Initialized(int *);
int MPI_Finalize(void);
int MPI_Comm_rank(MPI_Comm, int *);
int MPI_Comm_size(MPI_Comm, int *);
int MPI_Comm_dup(MPI_Comm, MPI_Comm *);
int MPI_Comm_split(MPI_Comm, int color, int key, MPI_Comm *);
int MPI_Comm_split_type(MPI_Comm, int type, int key, MPI_Info, MPI_Comm *);
int MPI_Comm_free(MPI_Comm *);
int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void *, int, MPI_Datatype, int root, MPI_Comm);
int MPI_Reduce(const void *, void *, int, MPI_Datatype, MPI_Op, int root, MPI_Comm);
int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Scan(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int root, MPI_Comm);
int MPI_Gatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, int root, MPI_Comm);
int MPI_Scatterv(const void *, const int *, const int *, MPI_Datatype, void *, int, MPI_Datatype, int root, MPI_Comm);
int MPI_Allgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm);
#ifdef __cplusplus
}
#endif
#endif
