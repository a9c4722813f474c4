// stand-in for ParMETIS and METIS: the harness provides the functions, any partition is a possible answer
#pragma once
#include <mpi.h>
#define REALTYPEWIDTH 32
#define IDXTYPEWIDTH 32
#define METIS_VER_MAJOR 5
typedef int idx_t; typedef float real_t;
#define METIS_NOPTIONS 40
#define METIS_OPTION_NUMBERING 17
#ifdef __cplusplus
extern "C" {
#endif
int METIS_SetDefaultOptions(idx_t*);
int METIS_PartGraphRecursive(idx_t* nvtxs,idx_t* ncon,idx_t* xadj,idx_t* adjncy,idx_t* vwgt,idx_t* vsize,idx_t* adjwgt,idx_t* nparts,real_t* tpwgts,real_t* ubvec,idx_t* options,idx_t* edgecut,idx_t* part);
int ParMETIS_V3_PartKway(idx_t* vtxdist,idx_t* xadj,idx_t* adjncy,idx_t* vwgt,idx_t* adjwgt,idx_t* wgtflag,idx_t* numflag,idx_t* ncon,idx_t* nparts,real_t* tpwgts,real_t* ubvec,idx_t* options,idx_t* edgecut,idx_t* part,MPI_Comm* comm);
#ifdef __cplusplus
}
#endif
