// Direct solvers, compiled without inlining. ver_*: the members which hold the verbosity; out_*: the library settings that control printing.
#include "config.h"
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/superlu.hh>
#include <dune/istl/umfpack.hh>
#include <dune/istl/ldl.hh>
#include <dune/istl/spqr.hh>
#include <dune/istl/cholmod.hh>
using namespace Dune;
using F2 = FieldMatrix<double,2,2>; using V2 = FieldVector<double,2>; using BV = BlockVector<V2>; using BM = BCRSMatrix<F2>;
double* out_umf(UMFPack<BM>& s) { return &s.UMF_Control[UMFPACK_PRL]; }
bool ver_slu(SuperLU<BM>& s) { return s.verbose; }
int ver_umf(UMFPack<BM>& s) { return s.verbosity_; }
int ver_ldl(LDL<BM>& s) { return s.verbose_; }
int ver_spqr(SPQR<BM>& s) { return s.verbose_; }
namespace Dune {
template class SuperLU<BM>;
template class UMFPack<BM>;
template class LDL<BM>;
template class SPQR<BM>;
}
