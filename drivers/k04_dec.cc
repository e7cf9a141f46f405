// Construction of incomplete factors on opaque rows.
#include "config.h"
#include <complex>
#include "opaque_rows.hh"
namespace vt {
  ME operator*(const ME&, const ME&) noexcept;
  void bildl_subtractBCT(const ME& B, const ME& CT, ME& A) noexcept;   // A -= B * CT^T
}
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/ilu.hh>
#include <dune/istl/dilu.hh>
#include <dune/istl/ildl.hh>
using M = vt::Mat; using DM = vt::DMat;
void k_ilu0(M& A) { Dune::ILU::blockILU0Decomposition(A); }
void k_ilu0_s(DM& A) { Dune::ILU::blockILU0Decomposition(A); }
void k_ildl(M& A) { Dune::bildl_decompose(A); }
void k_ildl_s(DM& A) { Dune::bildl_decompose(A); }
void k_dilu(M& A, std::vector<vt::ME>& D) { Dune::DILU::blockDILUDecomposition(A,D); }
void k_dilu_s(DM& A, std::vector<double>& D) { Dune::DILU::blockDILUDecomposition(A,D); }
