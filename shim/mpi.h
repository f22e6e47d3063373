// Minimal MPI interface used to build SST core for the checks.  The ranks are
// processes forked by the harness which talk through a shared-memory arena
// (see mpishim.cc), so multi-rank simulations start in milliseconds and message
// arrival is under the harness' control.
#ifndef VERIF_MPI_H
#define VERIF_MPI_H
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Datatype;   // low 8 bits: size, next 8: kind
typedef int MPI_Op;
typedef int MPI_Comm;
typedef int MPI_Info;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; long count_bytes; } MPI_Status;
typedef struct vmpi_req* MPI_Request;

#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_REQUEST_NULL ((MPI_Request)0)
#define MPI_INFO_NULL 0
#define MPI_ERRORS_RETURN 0
#define MPI_MAX_ERROR_STRING 256
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_ARGVS_NULL ((char***)0)
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_MULTIPLE 3

#define VMPI_T(kind, size) (((kind) << 8) | (size))
#define VMPI_SIGNED 1
#define VMPI_UNSIGNED 2
#define VMPI_FLOATING 3
#define VMPI_PAIR 4
#define MPI_SIGNED_CHAR    VMPI_T(1, 1)
#define MPI_UNSIGNED_CHAR  VMPI_T(2, 1)
#define MPI_CHAR           VMPI_T(1, 1)
#define MPI_BYTE           VMPI_T(2, 1)
#define MPI_PACKED         VMPI_T(2, 1)
#define MPI_CXX_BOOL       VMPI_T(2, 1)
#define MPI_C_BOOL         VMPI_T(2, 1)
#define MPI_SHORT          VMPI_T(1, 2)
#define MPI_UNSIGNED_SHORT VMPI_T(2, 2)
#define MPI_INT            VMPI_T(1, 4)
#define MPI_UNSIGNED       VMPI_T(2, 4)
#define MPI_LONG           VMPI_T(1, 8)
#define MPI_UNSIGNED_LONG  VMPI_T(2, 8)
#define MPI_LONG_LONG      VMPI_T(1, 8)
#define MPI_LONG_LONG_INT  VMPI_T(1, 8)
#define MPI_UNSIGNED_LONG_LONG VMPI_T(2, 8)
#define MPI_FLOAT          VMPI_T(3, 4)
#define MPI_DOUBLE         VMPI_T(3, 8)
#define MPI_INT8_T         VMPI_T(1, 1)
#define MPI_UINT8_T        VMPI_T(2, 1)
#define MPI_INT16_T        VMPI_T(1, 2)
#define MPI_UINT16_T       VMPI_T(2, 2)
#define MPI_INT32_T        VMPI_T(1, 4)
#define MPI_UINT32_T       VMPI_T(2, 4)
#define MPI_INT64_T        VMPI_T(1, 8)
#define MPI_UINT64_T       VMPI_T(2, 8)
#define MPI_DOUBLE_INT     VMPI_T(4, 16)

#define MPI_SUM 1
#define MPI_MAX 2
#define MPI_MIN 3
#define MPI_MAXLOC 4
#define MPI_MINLOC 5
#define MPI_LOR 6
#define MPI_LAND 7
#define MPI_BOR 8
#define MPI_BAND 9
#define MPI_PROD 10

int MPI_Init(int*, char***);
int MPI_Init_thread(int*, char***, int, int*);
int MPI_Finalize(void);
int MPI_Abort(MPI_Comm, int);
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Barrier(MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Wait(MPI_Request*, MPI_Status*);
int MPI_Waitall(int, MPI_Request*, MPI_Status*);
int MPI_Test(MPI_Request*, int*, MPI_Status*);
int MPI_Probe(int, int, MPI_Comm, MPI_Status*);
int MPI_Iprobe(int, int, MPI_Comm, int*, MPI_Status*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
int MPI_Pack(const void*, int, MPI_Datatype, void*, int, int*, MPI_Comm);
int MPI_Unpack(const void*, int, int*, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Get_processor_name(char*, int*);
int MPI_Error_string(int, char*, int*);
int MPI_Info_create(MPI_Info*);
int MPI_Info_set(MPI_Info, const char*, const char*);
int MPI_Comm_spawn_multiple(int, char*[], char**[], const int[], const MPI_Info[], int, MPI_Comm, MPI_Comm*, int[]);

// Harness side -------------------------------------------------------------
// Creates the arena for n ranks (call before forking the ranks).
void vmpi_setup(int nranks);
// Called in each forked rank.
void vmpi_enter(int rank);
// Removes the arena.
void vmpi_teardown(void);
#ifdef __cplusplus
}
#endif
#endif
