// the scenario of C30 in a build without OpenMP
#define htool htool_seq
#define vf vf_seq
#define VF_NO_MAIN
#define V30_RUN v30_seq
#include "c30_run.hpp"
#ifdef _OPENMP
#    error "this variant is built without OpenMP"
#endif
