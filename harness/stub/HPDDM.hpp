// Minimal stand-in for the HPDDM library (not available here): only the type named in the interface of local solvers.
#ifndef VF_HPDDM_STUB
#define VF_HPDDM_STUB
namespace HPDDM {
template <class K>
class MatrixCSR;
}
#endif
