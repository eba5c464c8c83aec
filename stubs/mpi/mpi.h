// Stand-in for MPI: an in-process network with random delays, see harness/par.cpp.
#ifndef VERIF_MPI_H
#define VERIF_MPI_H
typedef void * MPI_Request; typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Op; typedef int MPI_Status;
#define MPI_REQUEST_NULL ((MPI_Request)0)
#define MPI_SUCCESS 0
#define MPI_COMM_WORLD 1
#define MPI_BYTE 1
#define MPI_DOUBLE 2
#define MPI_INT 3
#define MPI_UNSIGNED_LONG 4
#define MPI_UNSIGNED_LONG_LONG 5
#define MPI_UNSIGNED_SHORT 6
#define MPI_FLOAT 7
#define MPI_UNSIGNED 8
#define MPI_MIN 1
#define MPI_MAX 2
#define MPI_SUM 3
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_THREAD_FUNNELED 1
extern "C" {
int MPI_Init( int *, char *** ); int MPI_Init_thread( int *, char ***, int, int * ); int MPI_Initialized( int * ); int MPI_Finalize();
int MPI_Comm_size( MPI_Comm, int * ); int MPI_Comm_rank( MPI_Comm, int * ); int MPI_Get_version( int *, int * ); int MPI_Barrier( MPI_Comm );
int MPI_Isend( void const *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request * ); int MPI_Irecv( void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request * );
int MPI_Test( MPI_Request *, int *, MPI_Status * ); int MPI_Wait( MPI_Request *, MPI_Status * ); int MPI_Waitall( int, MPI_Request *, MPI_Status * );
int MPI_Allreduce( void const *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm );
}
#endif
