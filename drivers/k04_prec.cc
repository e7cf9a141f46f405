// Preconditioners built on the incomplete factors: factorisations, backsolves and the matrix type are declared only.
#include "config.h"
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/matrixutils.hh>
#include <dune/istl/ilu.hh>
#include <dune/istl/dilu.hh>
#include <dune/istl/ildl.hh>
namespace vt {
  struct B { double v; };
  struct Row { int *p; };
  struct PMB {
    using allocator_type = std::allocator<B>; using block_type = B; using field_type = double; using size_type = std::size_t;
    enum BuildMode { row_wise, random, implicit, unknown };
    PMB() noexcept; PMB(const PMB&) noexcept; PMB(size_type, size_type, BuildMode) noexcept; ~PMB() noexcept;
    size_type N() const noexcept; size_type M() const noexcept;
    double* p; long n;
  };
  using PM = PMB;
  struct PV { using field_type = double; using block_type = double; PV(const PV&) noexcept; PV& operator*=(double) noexcept; PV& operator=(double) noexcept; double* p; };
}
namespace Dune {
  template<> struct FieldTraits<vt::PM> { using field_type = double; using real_type = double; };
  template<> struct FieldTraits<vt::PV> { using field_type = double; using real_type = double; };
  template<> struct CheckIfDiagonalPresent<vt::PM,1,1> { static void check(const vt::PM&) noexcept; };
  using CRS_ = ILU::CRS<vt::B, std::allocator<vt::B>>;
  namespace ILU {
    template<> void blockILU0Decomposition<vt::PM>(vt::PM&);
    template<> void blockILUDecomposition<vt::PM>(const vt::PM&, int, vt::PM&);
    template<> void blockILUBacksolve<vt::PM,vt::PV,vt::PV>(const vt::PM&, vt::PV&, const vt::PV&);
    template<> void blockILUBacksolve<CRS_,std::vector<vt::B>,vt::PV,vt::PV>(const CRS_&, const CRS_&, const std::vector<vt::B>&, vt::PV&, const vt::PV&);
    template<> void convertToCRS<vt::PM,CRS_,std::vector<vt::B>>(const vt::PM&, CRS_&, CRS_&, std::vector<vt::B>&);
  }
  template<> void bildl_backsolve<vt::PM,vt::PV,vt::PV>(const vt::PM&, vt::PV&, const vt::PV&, bool);
  namespace DILU {
    template<> void blockDILUDecomposition<const vt::PM>(const vt::PM&, std::vector<vt::B>&);
    template<> void blockDILUBacksolve<vt::PM,vt::PV,vt::PV>(const vt::PM&, const std::vector<vt::B>, vt::PV&, const vt::PV&);
  }
}
#include <dune/istl/preconditioners.hh>
using namespace Dune; using M = vt::PM; using X = vt::PV;
using IL = SeqILU<M,X,X>; using DI = SeqDILU<M,X,X>; using LD = SeqILDL<M,X,X>;
void k_ilu(IL* p, const M& A, int n, double w, bool r, X& v, const X& d) { new(p) IL(A, n, w, r); p->IL::apply(v, d); }
void s_ilu(IL* p, const M& A, int n, double w, bool r, X& v, const X& d)
{
  M* f;
  if (n == 0) { f = new M(A); ILU::blockILU0Decomposition(*f); }
  else { f = new M(A.N(), A.M(), M::row_wise); ILU::blockILUDecomposition(A, n, *f); }
  if (r) { ILU::convertToCRS(*f, p->lower_, p->upper_, p->inv_); delete f; ILU::blockILUBacksolve(p->lower_, p->upper_, p->inv_, v, d); }
  else ILU::blockILUBacksolve(*f, v, d);
  if (std::abs(w - 1.) > 1e-15) v *= w;
}
void k_ilu0(IL* p, const M& A, double w, bool r, X& v, const X& d) { new(p) IL(A, w, r); p->IL::apply(v, d); }
void s_ilu0(IL* p, const M& A, double w, bool r, X& v, const X& d) { s_ilu(p, A, 0, w, r, v, d); }
void k_ildl(LD& p, X& v, const X& d) { p.LD::apply(v, d); }
void s_ildl(LD& p, X& v, const X& d) { bildl_backsolve(p.decomposition_, v, d, true); v *= p.relax_; }
void k_dilu_ctor(DI* p, const M& A, double w) { new(p) DI(A, w); }
void s_dilu_ctor(DI* p, const M& A, double w) { new(&p->Dinv_) std::vector<vt::B>; p->Dinv_.resize(A.N()); CheckIfDiagonalPresent<M,1>::check(A); DILU::blockDILUDecomposition(A, p->Dinv_); const_cast<double&>(p->_w) = w; const_cast<bool&>(p->wNotIdentity_) = std::abs(w - 1.) > 1e-15; }
void k_dilu_apply(DI& p, X& v, const X& d) { p.DI::apply(v, d); }
void s_dilu_apply(DI& p, X& v, const X& d) { DILU::blockDILUBacksolve(p._A_, p.Dinv_, v, d); if (p.wNotIdentity_) v *= p._w; }
const void* off_DI_w(DI* p) { return &p->_w; }
const void* off_DI_not(DI* p) { return &p->wNotIdentity_; }
