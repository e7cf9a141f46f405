// Preconditioners constructed from a configuration tree: k_ library, s_ the documented meaning of every key.
#include "config.h"
#include "ptree.hh"
#include "opaque.hh"
#include <vector>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/preconditioners.hh>
using X = vt::Vec; using PT = Dune::ParameterTree;
template<class T> using sp = std::shared_ptr<T>;
namespace vt {
  struct Blk { double d; };
  struct Mat { double pad[6]; using field_type = double; using block_type = Blk; using allocator_type = std::allocator<Blk>; using size_type = std::size_t; enum BuildMode { row_wise, random };
    struct It { double d; It(const It&) noexcept; It& operator++() noexcept; bool operator!=(const It&) const noexcept; bool operator==(const It&) const noexcept; std::size_t index() const noexcept; std::size_t offset() const noexcept; struct R& operator*() const noexcept; struct R* operator->() const noexcept; };
    using row_type = R; using ConstRowIterator = It; using ConstColIterator = It; using RowIterator = It; using ColIterator = It;
    Mat(const Mat&) noexcept; Mat(std::size_t, std::size_t, BuildMode) noexcept; ~Mat() noexcept; std::size_t N() const noexcept; std::size_t M() const noexcept; It begin() const noexcept; It end() const noexcept; };
  struct R { Mat::It begin() const noexcept; Mat::It end() const noexcept; };
}
using M = vt::Mat; using AL = Dune::AssembledLinearOperator<M,X,X>;
namespace Dune {
  namespace ILU { template<> void blockILU0Decomposition<M>(M&); template<> void blockILUDecomposition<M>(const M&, int, M&); template<> void convertToCRS<M, CRS<vt::Blk,std::allocator<vt::Blk>>, std::vector<vt::Blk>>(const M&, CRS<vt::Blk,std::allocator<vt::Blk>>&, CRS<vt::Blk,std::allocator<vt::Blk>>&, std::vector<vt::Blk>&); }
  namespace DILU { template<> void blockDILUDecomposition<M>(M&, std::vector<vt::Blk>&); }
}
using SS = Dune::SeqSSOR<M,X,X>; using SO = Dune::SeqSOR<M,X,X>; using JA = Dune::SeqJac<M,X,X>; using IL = Dune::SeqILU<M,X,X>; using RI = Dune::Richardson<X,X>; using LD = Dune::SeqILDL<M,X,X>;
template<> LD::SeqILDL(const M&, double);
template<> void SS::apply(X&, const X&); template<> void SO::apply(X&, const X&); template<> void JA::apply(X&, const X&); template<> void IL::apply(X&, const X&); template<> void LD::apply(X&, const X&);
#define OFF(c, f) void* off_##c##_##f(c& o) { return (void*) &o.f; }
extern "C" { OFF(SS,_n) OFF(SS,_w) OFF(SO,_n) OFF(SO,_w) OFF(JA,_n) OFF(JA,_w) OFF(IL,w_) OFF(IL,wNotIdentity_) OFF(RI,_w) }
const M& mat_(const AL& a) { return a.getmat(); }
#define SWEEP(nm, S) \
 void k_##nm##_m(S* p, const M& A, const PT& c) { new (p) S(A, c); } void s_##nm##_m(S* p, const M& A, const PT& c) { const_cast<int&>(p->_n) = c.get("iterations", 1); const_cast<double&>(p->_w) = c.get("relaxation", 1.0); } \
 void k_##nm##_o(S* p, const sp<const AL>& A, const PT& c) { new (p) S(A, c); } void s_##nm##_o(S* p, const sp<const AL>& A, const PT& c) { A->getmat(); const_cast<int&>(p->_n) = c.get("iterations", 1); const_cast<double&>(p->_w) = c.get("relaxation", 1.0); } \
 void k_##nm##_d(S* p, const M& A, int n, double w) { new (p) S(A, n, w); } void s_##nm##_d(S* p, const M& A, int n, double w) { const_cast<int&>(p->_n) = n; const_cast<double&>(p->_w) = w; }
SWEEP(ssor, SS) SWEEP(sor, SO) SWEEP(jac, JA)
void k_rich_c(RI* p, const PT& c) { new (p) RI(c); } void s_rich_c(RI* p, const PT& c) { p->_w = c.get("relaxation", 1.0); }
void k_rich_d(RI* p, double w) { new (p) RI(w); } void s_rich_d(RI* p, double w) { p->_w = w; }
inline void ilu(IL* p, const M& A, int n, double w, bool r) {
  const_cast<double&>(p->w_) = w; 
  M* f; if (n == 0) { f = new M(A); Dune::ILU::blockILU0Decomposition(*f); } else { f = new M(A.N(), A.M(), M::row_wise); Dune::ILU::blockILUDecomposition(A, n, *f); }
  if (r) { Dune::ILU::convertToCRS(*f, p->lower_, p->upper_, p->inv_); f->~M(); }
}
void k_ilu_m(IL* p, const M& A, const PT& c) { new (p) IL(A, c); } void s_ilu_m(IL* p, const M& A, const PT& c) { ilu(p, A, c.get("n", 0), c.get("relaxation", 1.0), c.get("resort", false)); }
void k_ilu_o(IL* p, const sp<const AL>& A, const PT& c) { new (p) IL(A, c); } void s_ilu_o(IL* p, const sp<const AL>& A, const PT& c) { ilu(p, A->getmat(), c.get("n", 0), c.get("relaxation", 1.0), c.get("resort", false)); }
void k_ilu_d(IL* p, const M& A, int n, double w, bool r) { new (p) IL(A, n, w, r); } void s_ilu_d(IL* p, const M& A, int n, double w, bool r) { ilu(p, A, n, w, r); }
void k_ilu_0(IL* p, const M& A, double w, bool r) { new (p) IL(A, w, r); } void s_ilu_0(IL* p, const M& A, double w, bool r) { ilu(p, A, 0, w, r); }
void k_ildl_m(LD* p, const M& A, const PT& c) { new (p) LD(A, c); } void s_ildl_m(LD* p, const M& A, const PT& c) { new (p) LD(A, c.get("relaxation", 1.0)); }
void k_ildl_o(LD* p, const sp<const AL>& A, const PT& c) { new (p) LD(A, c); } void s_ildl_o(LD* p, const sp<const AL>& A, const PT& c) { new (p) LD(A->getmat(), c.get("relaxation", 1.0)); }
