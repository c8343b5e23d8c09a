/* minimpi: the subset of MPI that DLA-Future uses; ranks are fibers of one process (see src/minimpi.cpp). */
#ifndef VP_MINIMPI_H
#define VP_MINIMPI_H
#define VP_MINIMPI 1
#ifdef __cplusplus
extern "C" {
#endif
typedef struct vp_mpi_comm* MPI_Comm;
typedef struct vp_mpi_type* MPI_Datatype;
typedef struct vp_mpi_op* MPI_Op;
typedef struct vp_mpi_request* MPI_Request;
typedef struct vp_mpi_errh* MPI_Errhandler;
typedef struct vp_mpi_group* MPI_Group;
typedef int MPI_Fint;
typedef long MPI_Aint;
typedef struct {
  int MPI_SOURCE, MPI_TAG, MPI_ERROR;
  long vp_bytes;
} MPI_Status;

extern struct vp_mpi_comm *vp_comm_world, *vp_comm_self;
#define MPI_COMM_NULL ((MPI_Comm) 0)
#define MPI_COMM_WORLD (vp_comm_world)
#define MPI_COMM_SELF (vp_comm_self)
#define MPI_REQUEST_NULL ((MPI_Request) 0)
#define MPI_DATATYPE_NULL ((MPI_Datatype) 0)
#define MPI_ERRORS_RETURN ((MPI_Errhandler) 1)
#define MPI_ERRORS_ARE_FATAL ((MPI_Errhandler) 2)
#define MPI_STATUS_IGNORE ((MPI_Status*) 0)
#define MPI_STATUSES_IGNORE ((MPI_Status*) 0)
#define MPI_IN_PLACE ((void*) 1)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_UNDEFINED (-32766)
#define MPI_SUCCESS 0
#define MPI_MAX_ERROR_STRING 256
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_IDENT 0
#define MPI_CONGRUENT 1
#define MPI_SIMILAR 2
#define MPI_UNEQUAL 3

#define VP_TYPE(n) extern struct vp_mpi_type vp_type_##n;
VP_TYPE(CHAR) VP_TYPE(SIGNED_CHAR) VP_TYPE(UNSIGNED_CHAR) VP_TYPE(SHORT) VP_TYPE(UNSIGNED_SHORT) VP_TYPE(INT)
VP_TYPE(UNSIGNED) VP_TYPE(LONG) VP_TYPE(UNSIGNED_LONG) VP_TYPE(LONG_LONG) VP_TYPE(UNSIGNED_LONG_LONG)
VP_TYPE(FLOAT) VP_TYPE(DOUBLE) VP_TYPE(LONG_DOUBLE) VP_TYPE(C_BOOL) VP_TYPE(BYTE) VP_TYPE(C_FLOAT_COMPLEX)
VP_TYPE(C_DOUBLE_COMPLEX)
#undef VP_TYPE
#define MPI_CHAR (&vp_type_CHAR)
#define MPI_SIGNED_CHAR (&vp_type_SIGNED_CHAR)
#define MPI_UNSIGNED_CHAR (&vp_type_UNSIGNED_CHAR)
#define MPI_SHORT (&vp_type_SHORT)
#define MPI_UNSIGNED_SHORT (&vp_type_UNSIGNED_SHORT)
#define MPI_INT (&vp_type_INT)
#define MPI_UNSIGNED (&vp_type_UNSIGNED)
#define MPI_LONG (&vp_type_LONG)
#define MPI_UNSIGNED_LONG (&vp_type_UNSIGNED_LONG)
#define MPI_LONG_LONG (&vp_type_LONG_LONG)
#define MPI_LONG_LONG_INT (&vp_type_LONG_LONG)
#define MPI_UNSIGNED_LONG_LONG (&vp_type_UNSIGNED_LONG_LONG)
#define MPI_FLOAT (&vp_type_FLOAT)
#define MPI_DOUBLE (&vp_type_DOUBLE)
#define MPI_LONG_DOUBLE (&vp_type_LONG_DOUBLE)
#define MPI_C_BOOL (&vp_type_C_BOOL)
#define MPI_CXX_BOOL (&vp_type_C_BOOL)
#define MPI_BYTE (&vp_type_BYTE)
#define MPI_C_FLOAT_COMPLEX (&vp_type_C_FLOAT_COMPLEX)
#define MPI_C_DOUBLE_COMPLEX (&vp_type_C_DOUBLE_COMPLEX)
#define MPI_CXX_FLOAT_COMPLEX (&vp_type_C_FLOAT_COMPLEX)
#define MPI_CXX_DOUBLE_COMPLEX (&vp_type_C_DOUBLE_COMPLEX)

#define MPI_OP_NULL ((MPI_Op) 0)
#define MPI_SUM ((MPI_Op) 1)
#define MPI_PROD ((MPI_Op) 2)
#define MPI_MAX ((MPI_Op) 3)
#define MPI_MIN ((MPI_Op) 4)
#define MPI_LAND ((MPI_Op) 5)
#define MPI_LOR ((MPI_Op) 6)

int MPI_Init_thread(int*, char***, int, int*);
int MPI_Initialized(int*);
int MPI_Finalized(int*);
int MPI_Query_thread(int*);
int MPI_Finalize(void);
int MPI_Abort(MPI_Comm, int);
int MPI_Error_string(int, char*, int*);
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm*);
int MPI_Comm_dup(MPI_Comm, MPI_Comm*);
int MPI_Comm_free(MPI_Comm*);
int MPI_Comm_compare(MPI_Comm, MPI_Comm, int*);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);
int MPI_Errhandler_set(MPI_Comm, MPI_Errhandler);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Ibcast(void*, int, MPI_Datatype, int, MPI_Comm, MPI_Request*);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Ireduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm, MPI_Request*);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Iallreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Request*);
int MPI_Barrier(MPI_Comm);
int MPI_Ibarrier(MPI_Comm, MPI_Request*);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Probe(int, int, MPI_Comm, MPI_Status*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
int MPI_Wait(MPI_Request*, MPI_Status*);
int MPI_Waitall(int, MPI_Request*, MPI_Status*);
int MPI_Test(MPI_Request*, int*, MPI_Status*);
int MPI_Type_vector(int, int, int, MPI_Datatype, MPI_Datatype*);
int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype*);
int MPI_Type_commit(MPI_Datatype*);
int MPI_Type_free(MPI_Datatype*);
int MPI_Type_size(MPI_Datatype, int*);
int MPI_Dims_create(int, int, int*);
MPI_Comm MPI_Comm_f2c(MPI_Fint);
MPI_Fint MPI_Comm_c2f(MPI_Comm);
double MPI_Wtime(void);
#ifdef __cplusplus
}
#endif
#endif
