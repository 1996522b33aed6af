// Simulated MPI: the seam behind which the deterministic simulator sits.
// Placed in front of the system <mpi.h> on the include path when the real HILA
// library sources are compiled for the simulator.
#ifndef SIM_MPI_H
#define SIM_MPI_H
#include <cstddef>
#include <cstdint>
#ifdef __cplusplus
extern "C" {
#endif
struct sim_dt;
struct sim_comm_tag;
struct sim_op_tag;
struct sim_req_tag;
typedef struct sim_dt *MPI_Datatype;
typedef struct sim_comm_tag *MPI_Comm;
typedef struct sim_op_tag *MPI_Op;
typedef struct sim_req_tag *MPI_Request;
typedef void *MPI_Errhandler;
typedef void *MPI_Info;
typedef int MPI_Fint;
typedef ptrdiff_t MPI_Aint;
typedef struct {
    int MPI_SOURCE, MPI_TAG, MPI_ERROR;
    int _cancelled;
    size_t _ucount;
} MPI_Status;
typedef void(MPI_User_function)(void *, void *, int *, MPI_Datatype *);

#define SIM_H(T, n) ((T)(uintptr_t)(n))
#define MPI_BYTE SIM_H(MPI_Datatype, 0x101)
#define MPI_CHAR SIM_H(MPI_Datatype, 0x102)
#define MPI_SHORT SIM_H(MPI_Datatype, 0x103)
#define MPI_INT SIM_H(MPI_Datatype, 0x104)
#define MPI_LONG SIM_H(MPI_Datatype, 0x105)
#define MPI_FLOAT SIM_H(MPI_Datatype, 0x106)
#define MPI_DOUBLE SIM_H(MPI_Datatype, 0x107)
#define MPI_LONG_DOUBLE SIM_H(MPI_Datatype, 0x108)
#define MPI_C_BOOL SIM_H(MPI_Datatype, 0x109)
#define MPI_C_FLOAT_COMPLEX SIM_H(MPI_Datatype, 0x10a)
#define MPI_C_COMPLEX MPI_C_FLOAT_COMPLEX
#define MPI_C_DOUBLE_COMPLEX SIM_H(MPI_Datatype, 0x10b)
#define MPI_C_LONG_DOUBLE_COMPLEX SIM_H(MPI_Datatype, 0x10c)
#define MPI_UNSIGNED SIM_H(MPI_Datatype, 0x10d)
#define MPI_UNSIGNED_LONG SIM_H(MPI_Datatype, 0x10e)
#define MPI_INT64_T SIM_H(MPI_Datatype, 0x10f)
#define MPI_UINT64_T SIM_H(MPI_Datatype, 0x110)
#define MPI_2INT SIM_H(MPI_Datatype, 0x111)
#define MPI_LONG_INT SIM_H(MPI_Datatype, 0x112)
#define MPI_FLOAT_INT SIM_H(MPI_Datatype, 0x113)
#define MPI_DOUBLE_INT SIM_H(MPI_Datatype, 0x114)
#define MPI_LONG_DOUBLE_INT SIM_H(MPI_Datatype, 0x115)
#define MPI_UNSIGNED_CHAR SIM_H(MPI_Datatype, 0x116)
#define MPI_SIGNED_CHAR SIM_H(MPI_Datatype, 0x117)
#define MPI_UNSIGNED_SHORT SIM_H(MPI_Datatype, 0x118)
#define MPI_LONG_LONG SIM_H(MPI_Datatype, 0x119)
#define MPI_LONG_LONG_INT MPI_LONG_LONG
#define MPI_UNSIGNED_LONG_LONG SIM_H(MPI_Datatype, 0x11a)
#define MPI_INT32_T SIM_H(MPI_Datatype, 0x11b)
#define MPI_UINT32_T SIM_H(MPI_Datatype, 0x11c)
#define MPI_SHORT_INT SIM_H(MPI_Datatype, 0x11d)
#define MPI_CXX_BOOL MPI_C_BOOL
#define MPI_CXX_FLOAT_COMPLEX MPI_C_FLOAT_COMPLEX
#define MPI_CXX_DOUBLE_COMPLEX MPI_C_DOUBLE_COMPLEX
#define MPI_INT8_T MPI_SIGNED_CHAR
#define MPI_UINT8_T MPI_UNSIGNED_CHAR
#define MPI_INT16_T MPI_SHORT
#define MPI_UINT16_T MPI_UNSIGNED_SHORT
#define MPI_DATATYPE_NULL SIM_H(MPI_Datatype, 0)

#define MPI_SUM SIM_H(MPI_Op, 0x201)
#define MPI_PROD SIM_H(MPI_Op, 0x202)
#define MPI_MAX SIM_H(MPI_Op, 0x203)
#define MPI_MIN SIM_H(MPI_Op, 0x204)
#define MPI_MAXLOC SIM_H(MPI_Op, 0x205)
#define MPI_MINLOC SIM_H(MPI_Op, 0x206)
#define MPI_LAND SIM_H(MPI_Op, 0x207)
#define MPI_LOR SIM_H(MPI_Op, 0x208)
#define MPI_BAND SIM_H(MPI_Op, 0x209)
#define MPI_BOR SIM_H(MPI_Op, 0x20a)
#define MPI_BXOR SIM_H(MPI_Op, 0x20b)
#define MPI_LXOR SIM_H(MPI_Op, 0x20c)
#define MPI_OP_NULL SIM_H(MPI_Op, 0)

#define MPI_COMM_WORLD SIM_H(MPI_Comm, 0x301)
#define MPI_COMM_SELF SIM_H(MPI_Comm, 0x302)
#define MPI_COMM_NULL SIM_H(MPI_Comm, 0)
#define MPI_REQUEST_NULL SIM_H(MPI_Request, 0)
#define MPI_IN_PLACE ((void *)(intptr_t)-1)
#define MPI_STATUS_IGNORE ((MPI_Status *)0)
#define MPI_STATUSES_IGNORE ((MPI_Status *)0)
#define MPI_ERRORS_RETURN ((MPI_Errhandler)1)
#define MPI_ERRORS_ARE_FATAL ((MPI_Errhandler)2)
#define MPI_INFO_NULL ((MPI_Info)0)
#define MPI_SUCCESS 0
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_UNDEFINED (-32766)
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_COMM_TYPE_SHARED 1
enum { MPI_THREAD_SINGLE, MPI_THREAD_FUNNELED, MPI_THREAD_SERIALIZED, MPI_THREAD_MULTIPLE };

int MPI_Init(int *, char ***);
int MPI_Init_thread(int *, char ***, int, int *);
int MPI_Initialized(int *);
int MPI_Finalized(int *);
int MPI_Query_thread(int *);
int MPI_Finalize(void);
int MPI_Abort(MPI_Comm, int);
int MPI_Comm_rank(MPI_Comm, int *);
int MPI_Comm_size(MPI_Comm, int *);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm *);
int MPI_Comm_dup(MPI_Comm, MPI_Comm *);
int MPI_Comm_free(MPI_Comm *);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);
MPI_Fint MPI_Comm_c2f(MPI_Comm);
int MPI_Get_processor_name(char *, int *);
double MPI_Wtime(void);
double MPI_Wtick(void);
int MPI_Bcast(void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Ibcast(void *, int, MPI_Datatype, int, MPI_Comm, MPI_Request *);
int MPI_Reduce(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Ireduce(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm, MPI_Request *);
int MPI_Iallreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Request *);
int MPI_Barrier(MPI_Comm);
int MPI_Ibarrier(MPI_Comm, MPI_Request *);
int MPI_Gather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Scatter(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Alltoall(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Send(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Isend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Recv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Irecv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Sendrecv(const void *, int, MPI_Datatype, int, int, void *, int, MPI_Datatype, int, int,
                 MPI_Comm, MPI_Status *);
int MPI_Wait(MPI_Request *, MPI_Status *);
int MPI_Waitall(int, MPI_Request *, MPI_Status *);
int MPI_Waitany(int, MPI_Request *, int *, MPI_Status *);
int MPI_Test(MPI_Request *, int *, MPI_Status *);
int MPI_Testall(int, MPI_Request *, int *, MPI_Status *);
int MPI_Test_cancelled(const MPI_Status *, int *);
int MPI_Cancel(MPI_Request *);
int MPI_Request_free(MPI_Request *);
int MPI_Get_count(const MPI_Status *, MPI_Datatype, int *);
int MPI_Get_address(const void *, MPI_Aint *);
int MPI_Type_create_struct(int, const int *, const MPI_Aint *, const MPI_Datatype *, MPI_Datatype *);
int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype *);
int MPI_Type_commit(MPI_Datatype *);
int MPI_Type_free(MPI_Datatype *);
int MPI_Type_size(MPI_Datatype, int *);
int MPI_Op_create(MPI_User_function *, int, MPI_Op *);
int MPI_Op_free(MPI_Op *);
#ifdef __cplusplus
}
#endif
#endif
