// Application of incomplete factors on opaque rows.
#include "config.h"
#include "opaque_rows.hh"
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/ilu.hh>
#include <dune/istl/dilu.hh>
#include <dune/istl/ildl.hh>
using M = vt::Mat; using X = vt::RVec; using DM = vt::DMat; using DX = vt::DVec;
void k_ilu(const M& A, X& x, const X& b) { Dune::ILU::blockILUBacksolve(A,x,b); }
void k_ilu_s(const DM& A, DX& x, const DX& b) { Dune::ILU::blockILUBacksolve(A,x,b); }
void k_ildl(const M& A, X& x, const X& b, bool lower) { Dune::bildl_backsolve(A,x,b,lower); }
void k_ildl_s(const DM& A, DX& x, const DX& b, bool lower) { Dune::bildl_backsolve(A,x,b,lower); }
template void Dune::DILU::blockDILUBacksolve<M,X,X>(const M&, const std::vector<vt::ME>, X&, const X&);
template void Dune::DILU::blockDILUBacksolve<DM,DX,DX>(const DM&, const std::vector<double>, DX&, const DX&);
